#!/bin/bash
# Build harness crate $1 from /repo's current tree: native executable and optimised LLVM IR.
set -e
. /verif/harness/env.sh
H=$1
D=/verif/target/debug/deps
O=/verif/target/ir; mkdir -p $O
[ /verif/target/vpfs.so -nt /verif/harness/vpfs.c ] || gcc -shared -fPIC -O1 -o /verif/target/vpfs.so /verif/harness/vpfs.c -ldl
cd /verif/harness/$H
grep -q target/lib/tokio Cargo.toml && bash /verif/tools/mktokio.sh
cp /repo/Cargo.lock Cargo.lock
bc() { ls -t $D/h_$H-*.bc 2>/dev/null | grep -v rcgu | head -1; }
go() { cargo rustc --offline -q -- -C save-temps --emit=llvm-bc,link; }
if [ -z "$(bc)" ]; then touch src/main.rs; fi
go
BC=$(bc)
if [ -z "$BC" ]; then touch src/main.rs; go; BC=$(bc); fi
find $D -maxdepth 1 -name "h_$H-*.rcgu.*" -delete
if [ $O/$H.ll -nt "$BC" ]; then exit 0; fi
B=$(rustc +stable --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
API=$(grep -ohE 'extern "C" fn h_\w+' src/*.rs | sed 's/.*fn //' | sort -u | paste -sd,)
$B/opt -S -strip-debug -passes='internalize,globaldce' -internalize-public-api-list=$API "$BC" -o $O/$H.0.ll
python3 /verif/tools/strip.py $O/$H.0.ll $O/$H.1.ll >/dev/null
$B/opt -S -passes='globaldce,default<O1>,globaldce' $O/$H.1.ll -o $O/$H.2.ll
mv $O/$H.2.ll $O/$H.ll
rm -f $O/$H.0.ll $O/$H.1.ll
