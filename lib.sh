# Which harness decides which property, and how it is built.

# cargo compares modification times, which a copy of /repo need not keep: when the contents have
# changed since the last build here, forget what was built from them.
refresh() {
  local now
  now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.yaml' -o -name '*.json' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
  mkdir -p "$CARGO_TARGET_DIR"
  if [ "$(cat "$CARGO_TARGET_DIR/.repo-digest" 2>/dev/null)" != "$now" ]; then
    for d in h-light ethereum-consensus beacon-api-client ec-bin spec-gen h-; do
      find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 -name "$d*" -exec rm -rf {} + 2>/dev/null
    done
    printf %s "$now" > "$CARGO_TARGET_DIR/.repo-digest"
  fi
}

harness() {
  features= also= variant=
  case $1 in
    C01|C02) pkg=h-light bin=clock features=clock ;;
    C03|C04) pkg=h-light bin=text features=text ;;
    C05|C06) pkg=h-light bin=names features=names ;;
    C07) pkg=h-light bin=mnemonic features=mnemonic ;;
    C08|C09) pkg=h-specgen bin=specgen ;;
    C32|C33) pkg=h-objects bin=objects ;;
    C10|C11) pkg=h-spec bin=spec variant=shuffling ;;
    C1[2-9]|C2[0-9]|C3[0-7]|C44) pkg=h-spec bin=spec ;;
    C38|C39|C40) pkg=h-bin bin=bin also='-p ec-bin --bin ec' ;;
    C41|C42|C43) pkg=h-api bin=api ;;
    *) return 1 ;;
  esac
}

build() {
  local log=$CARGO_TARGET_DIR/build-$bin.log
  # the same harness over the library built with another feature, run as a part of the check
  if [ -n "$variant" ]; then
    cargo build --locked -p "$pkg" --bin "$bin" --features "$variant" >"$log" 2>&1 || { tail -60 "$log"; return 1; }
    ln -f "$CARGO_TARGET_DIR/debug/$bin" "$CARGO_TARGET_DIR/debug/$bin-$variant"
  fi
  cargo build --locked -p "$pkg" --bin "$bin" $also ${features:+--features "$features"} >"$log" 2>&1 && return
  # a module that has come to use another one needs both
  if [ -n "$features" ]; then
    cargo build --locked -p "$pkg" --bin "$bin" --all-features >"$log.all" 2>&1 && return
  fi
  tail -60 "$log"
  return 1
}
