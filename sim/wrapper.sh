#!/bin/bash
# RUSTC_WRAPPER: instruments the crates under simulation with thread-sanitizer callbacks, which
# pensim implements. Everything else is compiled as usual.
rustc="$1"; shift
name=; target=
prev=
for a in "$@"; do
  case "$prev" in
    --crate-name) name="$a" ;;
    --target) target=1 ;;
  esac
  case "$a" in --target=*) target=1 ;; esac
  prev="$a"
done
if [ -n "$target" ]; then
  case "$name" in
    pen_ffi|ffi|os|os_app|os_sync|os_sync_app|pen_*|test|random|core_ffi|sim_*|tokio|tokio_*|futures|futures_*|async_stream|crossbeam*|parking_lot*|lock_api|mio|hyper|h2|sqlx|sqlx_core|sqlx_sqlite|event_listener|flume|concurrent_queue|want|try_lock|bytes|slab|once_cell|scopeguard|hashlink|pin_project_lite|regex|regex_automata|rand|rand_core|chacha20)
      RUSTC_BOOTSTRAP=1 exec "$rustc" "$@" -Crelocation-model=static -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer ;;
    *)
      exec "$rustc" "$@" -Crelocation-model=static -Cunsafe-allow-abi-mismatch=sanitizer ;;
  esac
fi
exec "$rustc" "$@"
