#!/bin/bash
# build.sh OUTDIR: builds libideal_zkp.so, linked to the system's libsecp256k1,
# and further libraries for exercising the selection of the library:
#   libideal_zkp1.so  the same with another range proof exponent
#   libplain.so       a copy of libsecp256k1
#   libnarrow.so      libsecp256k1 without Schnorr signatures
#   libpartial.so     has rangeproof_info but no other zkp function
set -e
here=$(cd "$(dirname "$0")" && pwd)
lib= ar=
for d in /usr/lib/x86_64-linux-gnu /usr/lib /usr/local/lib; do
    for f in "$d"/libsecp256k1.so "$d"/libsecp256k1.so.*; do
        [ -z "$lib" ] && [ -e "$f" ] && lib=$f
    done
done
so() { gcc -O2 -shared -fPIC -Wall -Wno-unused-parameter "$@"; }
so -o "$1/libideal_zkp1.so" -DIDEAL_SHIFT=1 "$here/ideal_zkp.c" -Wl,--no-as-needed "$lib"
cp -L "$lib" "$1/libplain.so"
# (renaming a symbol in place makes it impossible to find)
LC_ALL=C sed -e 's/secp256k1_schnorrsig_/xecp256k1_schnorrsig_/g' \
    "$1/libplain.so" > "$1/libnarrow.so"
echo 'int secp256k1_rangeproof_info(void) { return 0; }' > "$1/partial.c"
so -o "$1/libpartial.so" "$1/partial.c" -Wl,--no-as-needed "$lib"
so -o "$1/libideal_zkp.so" "$here/ideal_zkp.c" -Wl,--no-as-needed "$lib"
