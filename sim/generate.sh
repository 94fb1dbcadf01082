#!/bin/bash
# Copies the sources of crates that are programs, so that they can be linked as libraries.
cd "$(dirname "$0")" || exit 1
program() { # FROM TO
  mkdir -p "gen/.new" && rm -rf "gen/.new/$2" && cp -r "$1" "gen/.new/$2" || return 1
  mv "gen/.new/$2/main.rs" "gen/.new/$2/lib.rs" || return 1
  printf '\npub fn pensim_main() {\n    main();\n}\n' >>"gen/.new/$2/lib.rs"
  if ! diff -rq "gen/.new/$2" "gen/$2" >/dev/null 2>&1; then
    rm -rf "gen/$2" && mv "gen/.new/$2" "gen/$2"
  fi
  rm -rf gen/.new
}
program /repo/packages/os/ffi/application/src os-app
program /repo/packages/os-sync/ffi/application/src os-sync-app
tool() { # The command line tool, with its arguments and its exit through the simulation.
  mkdir -p gen/.new && rm -rf gen/.new/tool-pen && cp -r /repo/cmd/pen/src gen/.new/tool-pen || return 1
  find gen/.new/tool-pen -name '*.rs' -exec sed -i -E \
    -e 's/\b(std::)?process::exit\(/crate::pensim_exit(/g' \
    -e 's/\.get_matches\(\)/.get_matches_from(crate::pensim_arguments())/g' {} + || return 1
  cat gen/.new/tool-pen/main.rs tool/main.rs >gen/.new/tool-pen/lib.rs && rm gen/.new/tool-pen/main.rs || return 1
  if ! diff -rq gen/.new/tool-pen gen/tool-pen >/dev/null 2>&1; then
    rm -rf gen/tool-pen && mv gen/.new/tool-pen gen/tool-pen
  fi
  rm -rf gen/.new
}
tool
