#!/bin/sh
# regenerates libs/ibltadapter_test.go from libs/ltadapter_test.go
cd "$(dirname "$0")/../libs" && sed -e 's/\blt\./iblt./g' -e 's/reconcile\/lt"/reconcile\/iblt"/' -e 's/\blt\(Codec\|Enc\|Dec\|CW\)\b/iblt\1/g' -e 's/for the lt codec.*/for the iblt codec; generated by tools\/gen_iblt.sh./' -e '/(made with/d' ltadapter_test.go > ibltadapter_test.go
