#!/bin/bash
# build.sh REPO OUT : builds OUT/sim from the library sources in REPO and the simulator beside this
# script. Nothing is written outside OUT.
set -u
export LC_ALL=C.UTF-8
here=$(cd "$(dirname "$0")" && pwd)
repo=$1
out=$2
mkdir -p "$out/lib" || exit 2
rm -f "$out"/lib/*.o "$out"/sim
# the same feature switches as the project's own build definitions
DEF="-DNDEBUG"
pids=()
n=0
logs=()
run() { # log cmd...
	local log=$1
	shift
	( "$@" >"$log" 2>&1 ) &
	pids+=($!)
	logs+=("$log")
}
for f in rt kern shim plan world gen main; do
	src=$here/$f.cpp
	obj=$out/$f.o
	sum=$( (sha256sum <"$src"; cat "$here"/*.h "$repo"/include/efsw/* | sha256sum) | sha256sum)
	if [ -f "$obj" ] && [ "$(cat "$obj.sum" 2>/dev/null)" = "$sum" ]; then continue; fi
	run "$out/$f.log" bash -c 'g++ -std=c++17 -O2 -g1 -fno-pie -I"$1/include" -c "$2" -o "$3" && echo "$4" >"$3.sum"' _ \
		"$repo" "$src" "$obj" "$sum"
done
shopt -s nullglob
objs=()
for src in "$repo"/src/efsw/*.cpp "$repo"/src/efsw/platform/posix/*.cpp; do
	b=$(basename "$src" .cpp)
	case $b in *Win32* | *Kqueue* | *FSEvents*) continue ;; esac
	obj=$out/lib/$b.o
	objs+=("$obj")
	# gcc takes some newer constructs in C++11, so try newer standards when the first one fails
	run "$out/lib/$b.log" bash -c '
		for std in c++11 c++14 c++17 gnu++20; do
			clang++ -std=$std "$@" && exit 0
		done; exit 1' _ -O1 -g -fno-omit-frame-pointer -fno-pie \
		-fsanitize=thread -femulated-tls -ftrivial-auto-var-init=pattern \
		-D_GLIBCXX_ASSERTIONS -Wno-everything -Wno-c++11-narrowing $DEF -I"$repo/include" \
		-I"$repo/src" -c "$src" -o "$obj"
done
ok=1
for i in "${!pids[@]}"; do
	if ! wait "${pids[$i]}"; then
		ok=0
		cat "${logs[$i]}" >&2
	fi
done
[ $ok = 1 ] || exit 2
cd "$out" || exit 2
ld -r --force-group-allocation -o lib.o "${objs[@]}" || exit 2
# symbol map: X -> sim_X for every X the shim implements
{
	nm --defined-only shim.o | awk '$2 ~ /^[TWDBV]$/ && $3 ~ /^sim_/ { print substr($3,5), $3 }'
	echo "__emutls_v._ZSt11__once_call sim_emu_once_call"
	echo "__emutls_v._ZSt15__once_callable sim_emu_once_callable"
} | grep -v '^emu_once' | sort -u >symmap
# the library's public interface stays visible, everything else becomes local
nm --defined-only lib.o | awk '{print $3}' | grep -E '^(efsw_|_ZN4efsw|_ZNK4efsw|_ZTVN4efsw|_ZTIN4efsw|_ZTSN4efsw|_ZThn|__tsan)' | sort -u >keep
objcopy --redefine-syms=symmap --keep-global-symbols=keep \
	--rename-section .data=efsw_data,alloc,load,data,contents \
	--rename-section .bss=efsw_bss,alloc lib.o libsim.o || exit 2
g++ -static -no-pie -g1 -o sim.tmp rt.o kern.o shim.o plan.o world.o gen.o main.o libsim.o -lpthread 2>link.log || {
	cat link.log >&2
	exit 2
}
mv sim.tmp sim
