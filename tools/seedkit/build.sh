# build.sh: sourced by demo.sh. `mk "<defs>" main.cpp out` compiles /repo's library sources (cwd) with main.cpp.
HERE="$(cd "$(dirname "$0")" && pwd)"; T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
R="$PWD"
mk() { # defs main out
  local o="$T/obj_$3"; mkdir -p "$o"
  ls "$R"/discrete_src/cc/*.cpp "$R"/discrete_src/vm/*.cpp "$R"/discrete_src/utils/*.cpp "$R"/discrete_src/lib/*.cpp "$R"/discrete_src/debug/*.cpp \
    | grep -v -e wrench_cli -e wrench_min -e arduino -e esp32 -e little_spiffs -e win32 -e /debugger.cpp -e /test_ > "$o/list"
  xargs -a "$o/list" -P 8 -I{} sh -c "g++ -std=c++98 -g -O1 -w -iquote $R/discrete_src -I$R -DWRENCH_LINUX_FILE_IO $1 -c {} -o $o/\$(basename {}).o" || exit 3
  g++ -std=c++11 -g -O1 -w -iquote "$R/discrete_src" -DWRENCH_LINUX_FILE_IO $1 "$2" "$o"/*.o -o "$T/$3" || exit 3
}
