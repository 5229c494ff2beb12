import subprocess
M={'blocks listed before the block':'C23', # subject fragment -> properties
"decode and encode uint64":"C01","encode a short string":"C01","accept the field length when encoding an EUI-48":"C01",
"a point without a value has no scaled":"C03","marked unimplemented in PICS keeps no value":"C22","cut a long TCP write":"C10",
"keep Modbus writes within 123":"C10","drop the socket of a failed TCP":"C15","failed or timed out TCP receive":"C14",
"check that a TCP response answers":"C14","never take a late TCP response":"C14","check that an RTU read response":"C12",
"report serial port failures":"C33","trace request bytes":"C30","let trace=True":"C30","closing an RTU device again":"C16",
"register map errors of a mapped device":"C33","close the connection and report a client error if a TCP scan":"C33",
"end the scan of a mapped":"C05","scan a device whose base":"C05","number the instances":"C05","keep points pending":"C09",
"let an item of a SunSpecClientDevice":"C28","print the models of a device that has several":"C28",
"write across adjoining":"C17","a refused write changes":"C17","load maps from hex files":"C18","load the base address of a map as":"C18",
"length of a map string":"C18","register count of a map hexstr":"C18","refuse a map hexstr":"C18","map register offset that is not":"C18",
"keep the access of register blocks":"C19","keep the symbols of points":"C20","a scale factor that does not exist":"C21",
"load a PICS model without length":"C23","definition that is not XML":"C20","base address of a PICS":"C23","index of a PICS model as":"C22",
"refuse a PICS block index":"C23","compare devices with unknown":"C27","compare the symbols of points":"C27",
"search a directory after a zip":"C25","entry of a zip file that ends with":"C25","keep the time stamp of a data":"C24",
"pass model index and namespace":"C24","write the model index of a data":"C24","a directory of the name is not the file":"C25",
"load an empty hexstr":"C29","refuse a repeating block without":"C29","block length that is not a number":"C29",
"attribute that is not a number as a data error":"C29","unknown encoding as a data":"C29","refuse a definition file without":"C29",
"skip the verification of the TLS":"C31","print a device with models that have no":"C32","report a device that cannot be read":"C32",
"do not print a map":"C32","load a PICS file in the encoding":"C23","load a model definition file in the encoding":"C20",
"load a map file in the encoding":"C18","register address beyond 65535":"C33",
"loading a model again does not":"C21","socket that cannot be closed":"C15",
"serial port that cannot be closed":"C16","error closing a device as":"C33","white space of any kind":"C18","a path that is none":"C26","that is named like a zip file":"C25","no zip file in spite of":"C25",
"is not a model definition":"C26"}
out=["# Genuine defects of sunspec/pysunspec found by the checks.",
"# 'fixed: property=<id> <commit> <what failed>' is a defect repaired by that commit in /repo; it suppresses nothing.",
"# 'KNOWN-FINDING: property=<id> ...' would be a defect recorded rather than repaired. There is none.",""]
used=set()
for l in subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()[1:]:
    h,s=l.split(' ',1)
    k=[k for k in M if k in s]
    assert len(k)==1,(s,k)
    used.add(k[0])
    out.append("fixed: property=%s %s %s"%(M[k[0]],h,s[5:]))
assert used==set(M),set(M)-used
open('/verif/KNOWN_FINDINGS','w').write("\n".join(out)+"\n")
