#!/bin/bash
# Makes the certificates of lib/tls (committed; only needed again to change them).
set -e
out=$(cd "$(dirname "$0")/../lib/tls" && pwd)
w=$(mktemp -d /tmp/verif_certs_XXXXXX)
cd "$w"
ca() { # name
  mkdir $1; touch $1/index.txt; echo 01 > $1/serial
  openssl ecparam -name prime256v1 -genkey -noout -out $1/key.pem
  cat > $1/ca.cnf <<C
[ca]
default_ca=d
[d]
dir=$w/$1
database=$w/$1/index.txt
serial=$w/$1/serial
new_certs_dir=$w/$1
certificate=$w/$1/cert.pem
private_key=$w/$1/key.pem
default_md=sha256
policy=p
unique_subject=no
[p]
commonName=supplied
[ca_ext]
basicConstraints=critical,CA:true
keyUsage=critical,keyCertSign,cRLSign
subjectKeyIdentifier=hash
C
  openssl req -new -key $1/key.pem -subj "/CN=Test CA $1" -out $1/req.pem
  openssl ca -batch -config $1/ca.cnf -selfsign -keyfile $1/key.pem -in $1/req.pem -extensions ca_ext -startdate 20000101000000Z -enddate 21200101000000Z -notext -out $1/cert.pem 2>/dev/null
  cp $1/cert.pem $out/$1.pem
}
leaf() { # name ca san start end usage
  openssl ecparam -name prime256v1 -genkey -noout -out key.pem
  openssl req -new -key key.pem -subj "/CN=$1" -out req.pem
  { echo "basicConstraints=critical,CA:false"; echo "extendedKeyUsage=$6"; echo "keyUsage=critical,digitalSignature"; echo "authorityKeyIdentifier=keyid"; [ -n "$3" ] && echo "subjectAltName=$3"; } > ext.cnf
  openssl ca -batch -config $2/ca.cnf -in req.pem -extfile ext.cnf -startdate $4 -enddate $5 -notext -out cert.pem 2>/dev/null
  cat cert.pem key.pem > $out/$1.pem
}
rm -f $out/*.pem
ca ca; ca other
B=20000101000000Z; E=21200101000000Z
leaf server-good ca IP:127.0.0.1,DNS:localhost $B $E serverAuth
leaf server-ip ca IP:127.0.0.1 $B $E serverAuth
leaf server-dns ca DNS:localhost $B $E serverAuth
leaf server-wrong ca IP:10.9.8.7,DNS:device.example $B $E serverAuth
leaf server-expired ca IP:127.0.0.1,DNS:localhost $B 20010101000000Z serverAuth
leaf server-early ca IP:127.0.0.1,DNS:localhost 21190101000000Z $E serverAuth
leaf server-other other IP:127.0.0.1,DNS:localhost $B $E serverAuth
leaf server-usage ca IP:127.0.0.1,DNS:localhost $B $E clientAuth
leaf client ca "" $B $E clientAuth
leaf client-other other "" $B $E clientAuth
# the client files are given separately
for c in client client-other; do openssl x509 -in $out/$c.pem -out $out/$c-cert.pem; openssl pkey -in $out/$c.pem -out $out/$c-key.pem; rm $out/$c.pem; done
cd /; rm -rf "$w"
ls -la $out
