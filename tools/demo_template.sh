#!/bin/bash
# Builds demo.cc (beside this file) with the library sources it needs from the
# current directory and runs it: exit 0 if the behaviour is as it should be.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
CRYPTO=/usr/lib/x86_64-linux-gnu/android/libcrypto.so
export D W
export F="-std=c++17 -w -O1 -I$D/shims -I$W/gen -isystem /usr/include/android -I."
mkdir -p "$W/gen/farmhash" "$W/o"
ln -s /usr/include/farmhash.h "$W/gen/farmhash/farmhash.h"
S=""
case " GROUPS_HERE " in *" core "*) S="$S dpf/*.cc dpf/internal/*.cc";; esac
case " GROUPS_HERE " in *" dcf "*) S="$S dcf/*.cc dcf/fss_gates/*.cc dcf/fss_gates/prng/*.cc";; esac
case " GROUPS_HERE " in *" fixedhash "*) S="$S dpf/aes_128_fixed_key_hash.cc";; esac
case " GROUPS_HERE " in *" hashing "*) S="$S pir/hashing/*.cc";; esac
case " GROUPS_HERE " in *" prng "*) S="$S pir/prng/*.cc";; esac
case " GROUPS_HERE " in *" pir "*) S="$S pir/internal/*.cc pir/*.cc";; esac
for p in $(find dpf dcf pir -name '*.proto'); do
  protoc -I. --cpp_out="$W/gen" "$p" && python3 "$D/shims/patch_pb.py" "$W/gen/${p%.proto}.pb.h" || exit 2
done
FILES="$D/demo.cc $(find "$W/gen" -name '*.pb.cc')"
for f in $S; do case $f in *_test.cc|*_benchmark.cc|*status_matchers.cc) ;; *) [ -f "$f" ] && FILES="$FILES $f";; esac; done
echo $FILES | tr ' ' '\n' | xargs -P 8 -I{} sh -c 'g++ $F -c {} -o "$W/o/$(echo {} | tr / _).o"' || exit 3
L=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a | grep -v flags | sed 's#.*/lib\(.*\)\.a#-l\1#' | tr '\n' ' ')
g++ "$W"/o/*.o -o "$W/demo" -Wl,--start-group $L -Wl,--end-group $CRYPTO -lfarmhash -lhwy -lprotobuf -lpthread -Wl,-rpath,/usr/lib/x86_64-linux-gnu/android || exit 4
timeout 200 "$W/demo"
