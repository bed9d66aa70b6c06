# common to the demonstrations: builds a small client against the freshly built library
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T="$(mktemp -d /tmp/demo.XXXXXX)"; trap 'rm -rf "$T"' EXIT
client() { # client SOURCE OUT [flags]
    src="$1"; out="$2"; shift 2
    gcc -O1 -g -I"$R/include" -I"$R/_build/include" -I"$R/_build/include/dav1d" "$@" "$D/$src" -o "$T/$out" -L"$R/_build/src" -ldav1d -Wl,-rpath,"$R/_build/src" -lpthread || exit 3
}
