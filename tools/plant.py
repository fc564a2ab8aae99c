#!/usr/bin/env python3
"""Writes planted bugs to /verif/seeded from a description and confirms them in a scratch copy.

usage: plant.py SEEDS.py [ID...]

SEEDS.py defines SEEDS: a list of dicts with id, property, needs, what_it_breaks, edits
[(file, old, new)], deps [crate directories under /repo] and demo (Rust source of main.rs, or a
complete demo.sh when it starts with '#!').  Not used by any check.
"""
import json, os, runpy, shutil, subprocess, sys

REPO = '/repo'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[-1]
COPY = '/tmp/plant-copy'

DEMO = '''#!/bin/bash
# Builds a small program against the crates in the current directory and runs it.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf -- "$work"' EXIT
mkdir "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"

[workspace]

[dependencies]
%s
TOML
cp "$repo/Cargo.lock" "$work/Cargo.lock" 2>/dev/null || true
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet --manifest-path "$work/Cargo.toml"
cd "$work"
timeout 60 "$work/target/debug/demo"
'''


def sh(*cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def prepare():
    if not os.path.isdir(COPY):
        subprocess.run(['cp', '-a', REPO, COPY], check=True)
    sh('git', '-C', COPY, 'fetch', '-q', REPO, 'HEAD')
    sh('git', '-C', COPY, 'checkout', '-q', '-f', 'FETCH_HEAD')


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    wanted = set(sys.argv[2:])
    prepare()
    for seed in seeds:
        if wanted and seed['id'] not in wanted:
            continue
        out = f"/verif/seeded/{seed['id']}"
        sh('git', '-C', COPY, 'checkout', '-q', '--', '.')
        problem = None
        for path, old, new in seed['edits']:
            full = f'{COPY}/{path}'
            text = open(full).read()
            count = text.count(old)
            if count != 1:
                problem = f'{path}: {count} matches of {old!r}'
                break
            open(full, 'w').write(text.replace(old, new))
        if problem:
            print(seed['id'], 'FAILED', problem)
            continue
        patch = sh('git', '-C', COPY, 'diff').stdout
        # Removed lines must be lines of the original repository.
        changed = []
        for path in {e[0] for e in seed['edits']}:
            base_lines = sh('git', '-C', REPO, 'show', f'{BASE}:{path}').stdout.split('\n')
            diff = sh('git', '-C', COPY, 'diff', '-U0', '--', path).stdout.split('\n')
            for line in diff:
                if line.startswith('-') and not line.startswith('---') and line[1:].strip() and line[1:] not in base_lines:
                    changed.append(line)
        if os.path.isdir(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(f'{out}/patch.diff', 'w').write(patch)
        demo = seed['demo']
        if seed.get('overlay'):
            deps = '\n'.join(f'{d} = {{ path = "$work/repo/{d}" }}' for d in seed['deps'])
            open(f'{out}/demo.sh', 'w').write(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'plant_demo_overlay.sh')).read().replace('@DEPS@', deps))
            open(f'{out}/main.rs', 'w').write(demo.lstrip('\n'))
        elif demo.startswith('#!'):
            open(f'{out}/demo.sh', 'w').write(demo)
        else:
            deps = '\n'.join(f'{d} = {{ path = "$repo/{d}" }}' for d in seed['deps'])
            open(f'{out}/demo.sh', 'w').write(DEMO % deps)
            open(f'{out}/main.rs', 'w').write(demo.lstrip('\n'))
        os.chmod(f'{out}/demo.sh', 0o755)
        json.dump({k: seed[k] for k in ('property', 'needs', 'what_it_breaks')}, open(f'{out}/meta.json', 'w'), indent=1)
        open(f'{out}/meta.json', 'a').write('\n')
        # Confirm: builds, passes the tests, the demonstration fails.
        test = sh('cargo', 'test', '--offline', '-q', '--no-fail-fast', *sum((['-p', m] for m in
                  ['keramics-checksums', 'keramics-core', 'keramics-datetime', 'keramics-encodings', 'keramics-hashes',
                   'keramics-layout-map', 'keramics-sigscan', 'keramics-types'] if not seed.get('members')), []), cwd=COPY) \
            if not seed.get('skip_test') else None
        # The workspace may not build as a whole: use the official runner's approach on the copy instead.
        demo_with = sh('bash', f'{out}/demo.sh', cwd=COPY, timeout=300)
        sh('git', '-C', COPY, 'checkout', '-q', '--', '.')
        demo_without = sh('bash', f'{out}/demo.sh', cwd=COPY, timeout=300)
        print(seed['id'], seed['property'],
              'tests', 'ok' if test is None or test.returncode == 0 else 'FAIL ' + (test.stdout + test.stderr)[-200:],
              '| demo with', demo_with.returncode, '| without', demo_without.returncode,
              '| not-original lines' if changed else '', changed or '', flush=True)
        if demo_without.returncode != 0:
            print(demo_without.stderr[-1500:])
        if demo_with.returncode == 0 or 'error' in demo_with.stderr.split('\n')[0]:
            print(demo_with.stderr[-800:])


main()
