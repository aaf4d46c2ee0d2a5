# Sourced. A throwaway PostgreSQL cluster reached only through a unix socket inside $1/pg.
# pg_start DIR ; pg_stop DIR
PGBIN=${PGBIN:-/usr/lib/postgresql/16/bin}
_as_pg() { local d=$1; shift; (cd "$d/pg" && setpriv --reuid=postgres --regid=postgres --clear-groups env -i PATH="$PATH" LANG=C.UTF-8 TZ=UTC "$@"); }
pg_start() {
	local d=$1
	mkdir -p "$d/pg" && chmod 755 "$d" && chown postgres:postgres "$d/pg" || return 1
	_as_pg "$d" $PGBIN/initdb -D "$d/pg/data" -U postgres -A trust -E UTF8 --locale=C.UTF-8 --lc-monetary=C --no-sync >"$d/initdb.log" 2>&1 || { cat "$d/initdb.log" >&2; return 1; }
	_as_pg "$d" $PGBIN/pg_ctl -D "$d/pg/data" -w -t 120 -l "$d/pg/server.log" \
		-o "-c listen_addresses='' -k $d/pg -c fsync=off -c synchronous_commit=off -c full_page_writes=off -c timezone=Europe/Zagreb -c dynamic_shared_memory_type=mmap -c max_connections=60 -c shared_buffers=64MB -c max_wal_size=4GB -c autovacuum=off -c jit=off" start >"$d/pgctl.log" 2>&1 \
		|| { cat "$d/pgctl.log" "$d/pg/server.log" >&2; return 1; }
	export PGHOST="$d/pg" PGPORT=5432 PGUSER=postgres TZ=UTC
}
pg_stop() {
	local d=$1
	[ -f "$d/pg/data/postmaster.pid" ] && _as_pg "$d" $PGBIN/pg_ctl -D "$d/pg/data" -m immediate -w stop >/dev/null 2>&1
	return 0
}
