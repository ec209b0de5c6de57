# sourced by demo.sh: builds the command line tool of the current directory's tree into $W/verifypn
# (the third-party headers missing here are the stand-ins in shim/), or $W/demo from demo.cpp
H="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
build() {
  mkdir -p "$W/gen" "$W/o"
  bison --defines="$W/gen/PQLQueryParser.parser.hpp" -o "$W/gen/PQLQueryParser.parser.cpp" "$R/src/PetriEngine/PQL/PQLQueryParser.y" || exit 99
  flex -o "$W/gen/PQLQueryTokens.lexer.cpp" "$R/src/PetriEngine/PQL/PQLQueryTokens.l" || exit 99
  { find "$R/src" -name '*.cpp' ! -name '*.parser.cpp' ! -name '*.lexer.cpp' -printf '%s %p\n' | sort -rn | cut -d' ' -f2-
    echo "$W/gen/PQLQueryParser.parser.cpp"; echo "$W/gen/PQLQueryTokens.lexer.cpp"
    [ -f "$H/demo.cpp" ] && echo "$H/demo.cpp"; } > "$W/list"
  if [ -f "$H/demo.cpp" ]; then grep -v '/src/main.cpp$' "$W/list" > "$W/list2"; mv "$W/list2" "$W/list"; fi
  export W R H
  xargs -P 8 -I{} sh -c 'o=$(echo {} | tr / _); g++ -std=c++17 -O0 -w '"$DEMO_FLAGS"' -DVERIFYPN_VERSION=\"demo\" -I "$R/include" -I "$H/shim" -isystem /usr/include/rapidxml -I "$W/gen" -I "$(dirname {})" -c {} -o "$W/o/$o.o"' < "$W/list" || exit 99
  g++ $DEMO_FLAGS -o "$W/verifypn" "$W"/o/*.o -lglpk -lpthread || exit 99
}
