# usage: build_demo OUT DEMO.cc [pythia]   (run with cwd /repo after the build)
build_demo() {
  local here; here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
  local R=$PWD B=$PWD/_build
  local out=$1 src=$2 py=$3 tmp; tmp=$(dirname "$out")
  local inc="-std=c++17 -O1 -w -pthread -DNDEBUG -DGCC_COMPILER -DLITTLE_ENDIAN_ARCHITECTURE
    -DPYTHIA_XML_DIR=\"none\"
    -I$here/stub -I$R/src/include -I$B/src/include -I$B/src -isystem $R/3rdparty/Cuba-4.2.2
    -isystem $R/3rdparty/einhard -isystem $R/3rdparty/yaml-cpp-0.8.0/include
    -isystem /usr/include/eigen3"
  local objs=""
  if [ "$py" = py ]; then
    local f pids=""
    for f in bremsstrahlungaction crosssections experiment scatteraction \
             scatteractionmulti scatteractionphoton scatteractionsfinder stringprocess; do
      g++ $inc -c src/$f.cc -o $tmp/$f.o & pids="$pids $!"
      objs="$objs $tmp/$f.o"
    done
    for f in $pids; do wait $f || return 99; done
  fi
  g++ $inc "$here/$src" $objs -o "$out" -Wl,--start-group $B/src/libsmash.a \
    $(find $B/3rdparty -name '*.a') -Wl,--end-group -lgsl -lgslcblas -lm
}
