# sourced by demo.sh; needs $D (directory of the demo); provides $T (scratch) $SRV $CLI
SRV=/repo/_build/src/server/nsca-ng
CLI=/repo/_build/src/client/send_nsca
T=$(mktemp -d /tmp/demo.XXXXXX)
PORT=$((20000 + RANDOM % 20000))
PIDS=
cleanup() { for p in $PIDS; do kill "$p" 2>/dev/null; done; rm -rf "$T"; }
trap cleanup EXIT
gcc -O1 -w -o "$T/pskc" "$D/pskc.c" -lssl -lcrypto || exit 99
mkfifo "$T/fifo"
fifo_reader() { cat <"$T/fifo" >"$T/out" & PIDS="$PIDS $!"; }
start_server() { # config on stdin is appended to the defaults; $@: extra options
	{ echo "command_file = \"$T/fifo\""; echo "temp_directory = \"$T\""; echo "pid_file = \"$T/pid\"";
	  echo "listen = \"127.0.0.1:$PORT\""; cat; } >"$T/server.cfg"
	${WRAP:-} "$SRV" -F -c "$T/server.cfg" -l 5 "$@" >"$T/log" 2>&1 &
	SPID=$!; PIDS="$PIDS $SPID"
	for i in $(seq 100); do
		grep -q "Listening on" "$T/log" && return 0
		kill -0 $SPID 2>/dev/null || return 1
		sleep 0.1
	done
	return 1
}
pskc() { timeout 60 "$T/pskc" "$PORT" "$@"; }
