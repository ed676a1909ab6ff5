# cc.sh SRC TARGET FLAVOR OUT
src=$1; t=$2; fl=$3; out=$4; shift 4
case $t in sse2) F="-DHWY_COMPILE_ONLY_STATIC";; ssse3) F="-mssse3 -DHWY_COMPILE_ONLY_STATIC";; sse4) F="-msse4.2 -maes -mpclmul -DHWY_COMPILE_ONLY_STATIC";; avx2) F="-march=haswell -maes -DHWY_COMPILE_ONLY_STATIC";; avx3) F="-march=skylake-avx512 -maes -DHWY_COMPILE_ONLY_STATIC";; dl) F="-march=icelake-server -DHWY_COMPILE_ONLY_STATIC";; zen4) F="-march=znver4 -DHWY_COMPILE_ONLY_STATIC";; spr) F="-march=sapphirerapids -DHWY_COMPILE_ONLY_STATIC";; scalar) F="-DHWY_COMPILE_ONLY_SCALAR";; emu) F="-DHWY_COMPILE_ONLY_EMU128";; esac
C="-fno-caret-diagnostics -ftemplate-backtrace-limit=2 -std=c++17 -O1 -DNDEBUG -fno-exceptions -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -w -I/repo -I/verif $F $XF $*"
if [ $fl = gcc ]; then clang++-18 $C -include /verif/lib/gccmode.h -E $src -o $out.ii && sed -i 's/"%v\([a-z]\)/"v\1/g' $out.ii && clang++-18 $C -c -emit-llvm -x c++-cpp-output $out.ii -o $out && rm $out.ii; else clang++-18 $C -c -emit-llvm $src -o $out; fi
