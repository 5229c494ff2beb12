#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text can be edited readably)."""
import json, os
P = []
def prop(pid, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

U, S, D, C = "sunspec/core/util.py", "sunspec/core/suns.py", "sunspec/core/device.py", "sunspec/core/client.py"
M, B, X, I, T = "sunspec/core/modbus/client.py", "sunspec/core/modbus/mbmap.py", "sunspec/core/smdx.py", "sunspec/core/pics.py", "sunspec/core/data.py"
K = "scripts/suns.py"

prop("C01", "Point values survive their register encoding",
 "For every SunSpec point type, encoding a representable value yields exactly the point's register width of big-endian data as SunSpec defines that type, and decoding those registers gives the value back. This covers the full range of every signed and unsigned 16/32/64-bit type, float32, IPv4/IPv6/EUI-48 addresses and strings of any field length (short strings are NUL padded to the field, long ones cut to it). Decoding any register pattern gives the value SunSpec defines for it, so no type confuses sign, width or byte order.",
 ["inputs"], "all point types x all values representable in the type x all string field lengths",
 "The codec tests check one or two constants per helper; they never go through the type table, never use 64-bit values above 2^63 on a point, and never encode a string into a field of a given length.",
 [U, S], [("pack/unpack helpers", U), ("suns_point_type_info", S)], ["point type table's encode/decode/to_value functions", "registers after a point write", "values after a model read"])

prop("C02", "Unimplemented markers read as no value, all else as a value",
 "After a model read, a point whose registers hold its type's SunSpec 'not implemented' marker has no value (None), and a point with any other register content has the value encoded there. Markers: 0x8000.. for signed integers and scale factors, all ones for unsigned, count, enum and bitfield types, zero for accumulators and addresses, NaN for float32, FF:FF:FF:FF:FF:FF for EUI-48, and a leading NUL for strings. The same rule decides whether a value given in a PICS document counts as implemented.",
 ["inputs"], "all point types x marker patterns, their neighbours, and arbitrary other patterns",
 "Only a handful of 16/32-bit markers occur in the test device map and those tests need model files that are not present.",
 [S, C, D], [("suns_is_impl_*", S), ("ClientModel.read_points", C), ("Point.from_pics", D)], ["point.value / value_base after read_points", "point.impl after from_pics"])

prop("C03", "A point's value is its raw value times ten to its scale factor",
 "After a model read (or PICS load), the value of an implemented point is its raw register value multiplied by 10 to the power of its scale factor, and the raw value unchanged when it has no scale factor or the scale factor is zero or unimplemented. The scale factor is the constant in the definition if that is a number, otherwise the named scale factor point of the same block, otherwise (in a repeating block) that of the fixed block; each repeating block uses its own. A point without a value has no scaled value either, and a re-read uses the scale factors of that read.",
 ["inputs", "histories"], "all definitions with local/fixed/constant scale factors, all scale factors -10..10 and unimplemented, all raw values, sequences of reads with changing scale factors",
 "Tests compare three hand-picked points; resolution order, repeating blocks and changed scale factors on re-read are not exercised.",
 [D, C], [("Point.value_getter", D), ("Model.load scale factor resolution", D), ("ClientModel.read_points", C)], ["point.value", "model attribute values"])

prop("C04", "Setting a point stores the nearest raw value and nothing else",
 "Setting the value of a point with a scale factor of a model that has been read stores the integer raw value nearest to value / 10^sf, so the value read back differs from the one set by at most half a step; without a scale factor integers, floats, strings and addresses are stored exactly (integers also from their decimal or 0x text). Setting a point to the value just read leaves its raw value unchanged. Setting marks exactly that point as updated and changes no other point.",
 ["inputs", "histories"], "all point types, scale factors -10..10, settable values within the type's range, sequences of sets",
 "Tests set three values at scale factors 1 and -1.",
 [D, S, C], [("Point.value_setter", D), ("suns_to_int etc.", S), ("model/block attribute properties", C)], ["point.value_base, value, dirty", "attributes of model and repeating block objects"])

prop("C05", "A scan finds exactly the models the device contains",
 "Scanning a device whose SunSpec map starts at 40000, 0 or 50000 (tried in that order, unless the user gives the device a list of its own; the first that answers with the SunS marker wins) yields its models in device order, each with the id, data address and length the device reports, grouped by id, with instance index 1,2,... per id, stopping at the end marker (or at the end of what a register map holds). Models whose definition is unknown or does not fit the reported length are still listed (with a load error) and do not hide later models; a device without a SunSpec map is reported as an error. A device whose base address is already known (from an earlier scan or because the user has set it, to whatever address) is scanned there, again and again with the same result. A progress function given to a scan is called for every model in order, before the model is listed, with a text that ends in its id, and by returning false ends the scan with an error; a delay given to it is waited between models. Neither changes what the scan finds, and after an ended scan the device can be scanned again.",
 ["inputs", "configurations", "histories"], "all base addresses, model chains (known, unknown, repeated, empty, ill-fitting), transports, end-marker forms, repeated scans, progress functions and delays",
 "The client tests scan two fixed maps (and cannot run without the model files); chains, alternate bases and failing candidates are unexplored.",
 [C, D], [("ClientDevice.scan", C), ("Device.add_model", D)], ["device.models_list, models, base_addr", "model.id, addr, len, index, load_error"])

prop("C06", "Reading a model gives every point the value in its own registers",
 "After a model or device read, every point in the fixed block and in every repeating block has the value decoded from its own registers (model address + block offset + point offset), whatever the transport (RTU, TCP, mapped) and the size of the model. Reading replaces all previous values by the device's current ones; a model read that fails leaves the model's values as they were. A read never changes the device.",
 ["inputs", "configurations", "histories"], "all model definitions (all types, gaps, pads, up to several hundred registers), all repeat counts, all register contents, all transports, repeated reads with device changes in between",
 "Tests read two fixed device maps through the mapped transport only.",
 [C, D, M, B], [("ClientModel.read_points", C), ("Model.load", D)], ["point.value_base for every point after read()"])

prop("C07", "Model reads use legal requests that never split a point",
 "While reading the points of a model, every Modbus read request asks for at least 1 and at most 125 registers, lies inside the model's register range, and together the requests cover every point. No point that fits in one request (125 registers) is ever fetched in two pieces, so multi-register values and strings are read atomically.",
 ["inputs"], "all model layouts and lengths from 1 to about 700 registers, with points of every width at every alignment relative to the request limit",
 "No test observes requests for a model longer than one request.",
 [D, C, M], [("read_blocks computation in Model.load", D), ("ClientModel.read_points", C), ("request chunking", M)], ["requests seen by the simulated device"])

prop("C08", "A model write changes only the points that were updated",
 "Writing a model stores each point updated since the last write, once, into exactly its own registers, encoded as its type defines, and leaves every other register of the device as it was (pads, gaps, scale factors, points not updated, other blocks and models). Afterwards nothing is pending: writing again sends nothing, and reading back gives the values written. Writing a single point likewise touches only that point's registers.",
 ["inputs", "histories"], "all definitions, all subsets of updated points (adjacent or not, across blocks), all values, all transports, sequences of set/write/read",
 "One test writes three adjacent points of one model through the mapped transport.",
 [C, U, M, B], [("ClientModel.write_points", C), ("ClientPoint.write", C)], ["device registers before/after", "write requests seen by the simulated device", "point.dirty"])

prop("C09", "A failed write leaves its updates pending",
 "If a write of a model fails (device exception, time-out, lost connection, bad reply) the error is reported to the caller, and every updated point whose registers were not acknowledged is still pending, so that repeating the write once the device works again brings the device to the state asked for. Points are no longer pending once the whole run of adjoining updated points they were written with has been acknowledged. No failure makes a later write touch registers of points that were not updated.",
 ["fault_sequences", "histories"], "all sets of updated points x a fault at any request of the write x repeated attempts",
 "No test injects a failure into a write.",
 [C, M], [("ClientModel.write_points", C), ("ClientPoint.write", C)], ["point.dirty after the failure", "device registers after the retry"],
 [{"name": "dirty", "meaning": "point updated but not yet written", "where": D}])

prop("C10", "Register transfers of any size are exact and within request limits",
 "Reading n registers from an address returns exactly the 2n bytes the device holds there, and writing data stores exactly that data there, for any size; long transfers are cut into consecutive requests that cover the range once, in order, each within the configured maximum and within Modbus's own limits (125 registers per read, 123 per write). This holds for RTU, TCP and mapped devices alike, for holding and input register reads, and for every maximum count configured.",
 ["inputs", "configurations"], "all addresses, sizes 1..600 registers, contents, max_count settings, transports",
 "The tests transfer two registers.",
 [M, B], [("ModbusClientRTU.read/write", M), ("ModbusClientDeviceTCP.read/write", M)], ["returned bytes, simulated device registers and request log"])

prop("C11", "RTU requests are well-formed frames and fragmented replies are understood",
 "Every RTU request is the exact Modbus RTU frame for the operation (slave id, function 3, 4 or 16, big-endian address and count, byte count and data for writes, CRC-16/MODBUS low byte first) and is preceded by discarding stale input. A correct reply gives the same result however the serial port delivers it in pieces. The CRC function agrees with CRC-16/MODBUS on every byte string.",
 ["inputs", "schedules"], "all slave ids, functions, addresses, counts, data; all fragmentations of the reply; stale bytes in the input buffer",
 "Tests check one read and one write frame, delivered whole.",
 [M], [("ModbusClientRTU._read/_write", M), ("computeCRC/checkCRC", M)], ["bytes written to the serial port", "result of read/write"])

prop("C12", "A bad RTU reply is never taken for data or success",
 "If the reply to an RTU request has a wrong CRC, comes from another slave, carries another function or the wrong number of registers (or, for writes, another address or count), is cut short, or does not come at all, the operation raises a Modbus client error and returns no data. An exception reply raises a Modbus exception error carrying the exception code, and a reply with a wrong CRC is never reported as one; silence raises a time-out error. The next operation with a good reply succeeds regardless.",
 ["fault_sequences", "inputs"], "all corruptions of a valid reply (bit flips, truncations, replaced fields with a valid CRC, exception codes 1..255, silence) at any request of an operation, followed by further operations",
 "No test feeds a bad reply.",
 [M], [("ModbusClientRTU._read/_write", M), ("checkCRC", M)], ["exception type and text", "subsequent reads"])

prop("C13", "TCP requests are well-formed and fragmented replies are understood",
 "Every Modbus TCP request goes to the host and port given for the device (port 502 unless given) and is the exact frame for the operation (protocol id 0, the right length field, unit id, function 3, 4 or 16, big-endian address and count, byte count and data for writes). A correct reply gives the same result however the network splits it, and a reply is consumed exactly so that consecutive requests on one connection do not disturb each other.",
 ["inputs", "schedules"], "all unit ids, functions, addresses, counts, data; all splits of the reply stream; sequences of requests on one connection",
 "Tests check one read and one write frame, delivered whole.",
 [M], [("ModbusClientDeviceTCP._read/_write", M)], ["bytes sent on the socket", "result of read/write"])

prop("C14", "A bad TCP reply is never taken for data or success",
 "If the reply to a TCP request is an exception, carries another function or another number of registers than asked for, is cut short by the peer, or does not come in time, the operation raises a Modbus client error and returns no data; exception replies raise a Modbus exception error carrying the code and silence a time-out error. A late reply to a timed-out request is never taken for the reply to a later one.",
 ["fault_sequences", "inputs"], "all corruptions of a valid reply, truncations, resets, silence, late replies, at any request of an operation, implicit or explicit connections",
 "No test feeds a bad reply.",
 [M], [("ModbusClientDeviceTCP._read/_write/read/write", M)], ["exception type and text", "data returned by later reads"])

prop("C15", "TCP connections are released and failures do not outlast their cause",
 "A TCP operation without an open connection opens one for itself and closes it at the end, whether it succeeds or fails; one within an explicit connection uses that connection and leaves it open on success. After close or disconnect no connection is left open, reconnecting closes the previous one, and a client whose construction fails leaves none behind. After a refused connection or a failed exchange, the next operation against a healthy device succeeds.",
 ["histories", "fault_sequences"], "all sequences of connect/disconnect/read/write/close/scan with faults (refused, reset, time-out, exception) at any point",
 "No test connects a socket.",
 [M, C], [("ModbusClientDeviceTCP.connect/disconnect/read/write", M), ("SunSpecClientDevice construction", C)], ["set of open simulated sockets", "results of operations"],
 [{"name": "socket", "meaning": "open connection or None", "where": M}])

prop("C16", "RTU devices on one port share one open serial port",
 "All RTU devices created for the same port name use a single serial port, opened once with the settings of the first device (9600 baud, no parity by default); asking for a different baud rate or parity while it is open is refused with a Modbus client error and disturbs nothing. The port stays open and usable until the last of its devices (distinct slave ids) is closed, is then closed, and can be opened afresh with other settings. Closing a device twice, or failing to construct one, affects no other device.",
 ["histories"], "all sequences of open/close/double close/read over several ports, slave ids and settings, including failing opens",
 "Tests use one device on one port.",
 [M], [("modbus_rtu_client registry", M), ("ModbusClientRTU.add_device/remove_device", M)], ["simulated serial ports opened/closed", "results of operations"],
 [{"name": "modbus_rtu_clients", "meaning": "port name -> open client", "where": M}])

prop("C17", "A register map behaves as a register store",
 "A Modbus map returns for every range it fully holds the registers last written (or loaded) there, and a write changes exactly the registers written, also across adjoining register blocks. A read or write that touches a register the map does not hold, of an odd number of bytes, or with the wrong function is refused with a map error, and a refused operation changes nothing. Blocks added to the map start as zeros, must not overlap or go backwards, and adjoin seamlessly; a register block used on its own reads and writes its registers and refuses others in the same way.",
 ["histories", "inputs"], "all block layouts (adjoining, with gaps, any base address), all sequences of add/read/write with ranges anywhere",
 "Tests never write to a map or read across blocks.",
 [B], [("ModbusMap.read/write/regs_add", B), ("ModbusMapRegs", B)], ["bytes returned by read", "errors raised"])

prop("C18", "A map document loads into the registers it describes",
 "Loading an mbmap document gives a map that holds, at each element's offset (explicit, or following the previous element), the big-endian encoding of its content for every register type (s16..u64 in decimal or 0x form, f32, f64, string, hexstr with or without white space), NUL/zero filled to its length, where string and hexstr lengths default to what the content needs and a longer string is cut to the length given. Base address, function and the other header attributes are those of the document. A hex dump file loads into the registers it lists; overlapping, backward, oversized or otherwise inconsistent documents are refused with a map error.",
 ["inputs"], "all mbmap documents over all register types, lengths, offsets, gaps, header attributes; equivalent spellings of the same registers; hex files",
 "Five fixed spellings of one map are compared with each other.",
 [B], [("ModbusMap.from_xml/from_hex", B)], ["ModbusMap.read over the map, base_addr, func, regs"])

prop("C19", "A map survives being written to XML, and map comparison is exact",
 "Writing any map to XML and loading it again gives a map that compares equal and reads the same everywhere, including base address, function, access and header attributes; with no data requested the layout alone is kept. Two maps compare as equal if and only if their base address, function, register blocks, block access and contents are the same.",
 ["inputs", "histories"], "all maps built from documents and by adding/writing registers; all single differences between two maps",
 "One map's data text is compared after conversion; comparison is only tried on equal maps.",
 [B], [("ModbusMap.to_xml/from_xml/not_equal", B), ("ModbusMapRegs.not_equal", B)], ["reloaded map contents", "not_equal result"])

prop("C20", "A model definition document loads completely and exactly",
 "Loading an SMDX definition gives a model type with the document's id, length, name, texts (label, description, notes), and for the fixed and repeating block its name, length and points in document order, each point with its id, offset, type, register length, access, mandatory flag, units, scale factor reference, texts and symbols (id, value and texts, kept apart between points), defaults being read-only, optional and unnamed. Definitions with duplicate points or blocks, unknown types, access or mandatory values, or missing required attributes are refused with a SunSpec error.",
 ["inputs"], "all well-formed definitions over all types and optional parts; all single violations of the definition rules",
 "Two inline definitions are loaded and three attributes looked at; the model file tests cannot run here.",
 [D, X], [("ModelType/BlockType/PointType/Symbol.from_smdx", D), ("model_type_get", D), ("type tables", X)], ["model type object attributes"])

prop("C21", "A model's blocks tile the length the device reports",
 "A loaded model has its fixed block at the model's address and as many repeating blocks as the reported length holds, consecutive and without gaps, each point at its block's address plus its offset, scale factor and pad points kept out of the point lists. A reported length that ends inside a block is refused with a SunSpec error; a length of zero or none means the definition's own; extra registers after a model without repeating block are ignored; the common model may be one register short. A scale factor reference that cannot be resolved is refused with a SunSpec error. Loading a model again, whether the earlier attempt failed or not, gives what loading it once gives.",
 ["inputs", "histories"], "all definitions x all reported lengths x all base addresses x earlier attempts to load",
 "One test checks one too-short length.",
 [D], [("Model.load", D)], ["model.blocks, points, addresses, lengths, errors"])

prop("C22", "A device description survives a PICS round trip",
 "Writing a device to PICS with all repeating blocks and loading the result gives a device that compares equal: the same models with ids, lengths and instance indexes, and the same raw value, scale factor and implemented/unimplemented status for every point of every block. With single-block output only the fixed and first repeating block are written and loading applies the first repeating block's values to all. Unimplemented points are marked so and writable points carry their access.",
 ["inputs"], "all devices over all definitions, repeat counts, values and unimplemented subsets; in memory and through serialized XML",
 "One fixed device is round-tripped, and that test cannot run here.",
 [D, I], [("to_pics/from_pics of Device, Model, Block, Point", D)], ["reloaded device's points", "PICS elements"])

prop("C23", "A PICS document loads into the device it describes",
 "Loading a PICS document (from an element, a file, a path list entry or the global path list, in the documented order) gives the models it lists at consecutive addresses after the device's base address (40000 unless given), with each listed point's value, scale factors applied, points marked impl=\"false\" or given a marker value left without value, a repeating block without index applied to all repeating blocks and one with index to that block only. Unknown models are kept with a load error. Documents with unexpected elements, missing ids or block indexes out of range are refused with a SunSpec error.",
 ["inputs"], "all PICS documents over all definitions, value spellings, block selections and single structural violations",
 "Two fixed documents are loaded and those tests cannot run here.",
 [D, I], [("Device.from_pics and below", D)], ["device.base_addr, models, point values, errors"])

prop("C24", "SunSpec data records survive writing and reading",
 "A data record built through the API and written as XML (plain or pretty printed) reads back with the same devices, models and points in order and the same attributes: logger id, namespace, device id, interface, manufacturer, model, serial number, UTC time stamp to the second, correlation id, model id, index (omitted when 1) and namespace, point id, value text, index, scale factor and time. Writing what was read gives the same XML, and records with unexpected elements, or with an index or scale factor that is not a number, are refused with a data error.",
 ["inputs"], "all records with any subset of attributes, any text, any numbers of devices, models and points, any time stamp",
 "One record with five attributes is written and never read back.",
 [T, U], [("to_xml/to_xml_str/from_xml", T), ("indent", U)], ["XML text", "objects read back"])

prop("C25", "The search path returns the first instance of a file",
 "Reading a file through a path list returns the content of the file from the first entry, in the order added, that has it, whether the entry is a directory or a place inside a zip archive, and raises a name error if none has it. Missing directories, missing zip files, files that are no zip archives, and archives without the file are skipped without affecting later entries. Reading never changes the path list, and always gives what is there at the time, also when files and archives come, change or go between reads.",
 ["inputs", "configurations"], "all lists of directories, zip archives and paths inside them, existing or not, with the file present in any subset",
 "Only directory entries are used by the tests.",
 [U], [("PathList.read/add", U)], ["bytes returned or NameError"])

prop("C26", "Model definitions come from the path list in effect",
 "A model definition is looked up first in the file path list in effect, then in the current directory, then in the package's model directory, and a definition that is nowhere is reported as a SunSpec error. A temporary path list is in effect exactly within its scope, also when scopes nest, when they are left by an exception and when one cannot be entered, and leaves the previous one in effect unchanged. Model file names and model ids convert to each other consistently.",
 ["histories", "configurations"], "all nestings of path list scopes with any placement of definition files, lookups at every point, exits by exception",
 "One test enters one scope.",
 [D, X], [("fresh_file_pathlist", D), ("model_type_get", D), ("model_id_to_filename/model_filename_to_id", X)], ["model type obtained", "errors raised", "path list in effect"])

prop("C27", "Device comparison reports equality exactly when devices are equal",
 "Comparing two devices built separately from the same definitions and data reports no difference, for every definition including ones with symbols, repeating blocks and unknown models. Any single difference in the number of models, the number of blocks, a model's definition (id, length, block, point type, offset, length, units, symbols, access or mandatory flag) or a point's raw value or scale factor is reported as a difference, from either side. Comparing changes neither device.",
 ["inputs"], "all pairs of equal devices; all single differences between two devices; both argument orders",
 "not_equal is tested only on equal hand-made types without symbols.",
 [D], [("not_equal of Device, Model, Block, Point, ModelType, BlockType, PointType", D)], ["not_equal result"])

prop("C28", "Scripting attributes mirror the device's models and points",
 "A SunSpecClientDevice has one attribute per model name (or model_<id> for unknown models) listed in order of first appearance; several models of one name become a list indexed from 1. A model object has an attribute and an item for every non-scale-factor, non-pad point of its fixed block, and its repeating blocks are reachable under 'repeating' and the block's own name, indexed from 1, with attributes and items for their points; reading them gives, and assigning them sets, the underlying point and no other. Printing an object lists exactly its points that have a value.",
 ["inputs", "histories"], "all devices over all definitions, repeated and unknown models, several devices alive at once, sequences of get/set through any access form",
 "Two fixed devices are used by tests that cannot run here.",
 [C], [("SunSpecClientDevice", C), ("SunSpecClientModelBase/BlockBase", C), ("model_class_get", C)], ["attributes, items, str()"])

prop("C29", "Malformed documents are refused cleanly",
 "Whatever the content of a model definition, PICS document, Modbus map or data record, loading it either succeeds or raises the error documented for that kind of document (SunSpec error, map error, or data/XML error for data records); it never raises another kind of exception or runs without end. A failed load leaves no trace: later loads of good documents give the same result as in a fresh process.",
 ["inputs", "histories"], "all documents reachable by mutating valid ones (attributes dropped, duplicated, replaced by junk; elements moved, removed, renamed; text junk; truncated or random bytes)",
 "No test loads a malformed document, apart from one too-short length.",
 [D, B, T], [("model_type_get", D), ("Device.from_pics", D), ("ModbusMap.from_xml", B), ("SunSpecData.from_xml", T)], ["exception type", "result of a following good load"])

prop("C30", "Tracing shows the traffic and changes nothing",
 "With a trace function supplied, every operation has exactly the same result, error and wire traffic as without, and the trace function is called with the bytes of each request sent and each reply received in hexadecimal, in order. Enabling trace on a client device with a plain true value works as well.",
 ["inputs", "fault_sequences"], "all sequences of reads and writes, RTU and TCP, with good, exceptional and failing replies",
 "All tests run with tracing off.",
 [M, C], [("trace_func handling in _read/_write", M), ("ClientDevice trace parameter", C)], ["trace lines", "results with and without trace"])

prop("C31", "TLS connections verify the server unless told not to",
 "A TLS device connects to a server, presenting its client certificate, only if the server's certificate chains to the given CA (which takes the place of the system's own) and names the address connected to; otherwise the connection is refused with a Modbus client error and no request is sent. With verification explicitly skipped it connects in either case. Without TLS the exchange is in clear, and with TLS no Modbus byte ever travels in clear.",
 ["configurations"], "all combinations of server certificate (trusted, untrusted CA, wrong name), verification setting, TLS on/off, and operations",
 "No test uses TLS.",
 [M, C], [("ModbusClientDeviceTCP.connect", M)], ["outcome of read over a loopback TLS server", "bytes the server saw"])

prop("C32", "The suns tool prints every value the device has",
 "The suns command connects with the options given or their documented defaults and prints, for every model of the device in order, its heading and one line per implemented point of every block with the point's label or id, the value (bitfields in hexadecimal) and the units, and nothing for unimplemented points, whatever models the device contains, including unknown ones. It exits with status 0, or reports a device or map it cannot open as an error with status 1.",
 ["inputs", "configurations"], "all mapped devices over all definitions, unknown models, missing or non-SunSpec maps",
 "The script has no tests.",
 [K, C, D], [("suns.py main program", K)], ["standard output and exit status of the script"])

prop("C33", "Failures reach client users as SunSpec client errors",
 "Whatever goes wrong between a client device object and its device (connection refused, time-out, reset, bad or exception reply, missing or bad map, unmapped registers, serial port failure) during construction, scan, read, write or close reaches the caller as a SunSpecClientError and as nothing else. No such failure leaves the object unusable: once the device works again the same operation succeeds with the right result.",
 ["fault_sequences", "histories"], "all operations of the client API x all transports x a fault of any kind at any request, followed by the same operation without fault",
 "No test injects a failure.",
 [C, M, B], [("ClientDevice.__init__/read/write/scan", C), ("error wrapping in the Modbus clients", M)], ["exception type", "result of the repeated operation"])

prop("C34", "Devices are waited for exactly as long as asked",
 "Every request to a device waits for the reply as long as the time-out given when the device was made, whichever class it was made with: a reply that arrives completely within it is used, however late within it, and a request that gets no answer within it fails then with a Modbus time-out (a SunSpec client error in client objects), neither sooner nor later, each request of a longer transfer having the whole time-out for itself. The same time limits opening a TCP connection, unless connect is given one of its own. Without one, half a second is used on a serial port and two seconds over TCP. Nothing waits for ever, and what one TCP device is given does not change another.",
 ["inputs", "fault_sequences"], "all time-outs x transports x device classes x arrival times of the pieces of each reply or of none, and times taken to connect",
 "Tests use instantaneous local connections or none.",
 [M, C], [("serial and socket time-out settings, read/write of RTU and TCP devices, connect", M), ("timeout parameter of ClientDevice", C)], ["simulated time spent", "result or error of each operation"])

prop("C35", "What one device or document does never shows in another",
 "Devices, scripting objects, register maps, PICS devices and data records alive in one process are independent of each other, even when they share model definitions, a serial port, a host or a map file: in whatever order operations on them alternate, also in threads of which one goes on while another waits for its own device or port, and whatever fails in one of them, every operation has the result, sends the requests and leaves the values it would with the others absent, and closing one leaves the others usable. When all are closed, no port or connection is left open.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of operations of several clients, maps, PICS devices and records, with faults in some of them",
 "No test has two devices alive at once.",
 [C, M, D, B, T], [("class and module state: modbus_rtu_clients, model_types, classes made by model_class_get, default arguments", M), ("SunSpecClientModelBase", C)], ["results, requests and values of each actor, alone and among others"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
