"""Copies of /repo/src that the checks build: the driver binary (counterexample
search and replay) and the Kani overlay. Every run starts from /repo's current
working tree; nothing is written to /repo."""
import os, re, shutil, subprocess, glob, tempfile

REPO = os.environ.get('PEMV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           RUSTFLAGS='--cap-lints allow', CARGO_INCREMENTAL='0', CARGO_PROFILE_DEV_DEBUG='0', RUSTC_WRAPPER='')
ENV.pop('CARGO_TARGET_DIR', None)


def copy_src(dst):
    os.makedirs(dst)
    shutil.copytree(f'{REPO}/src', f'{dst}/src')
    shutil.copy(f'{REPO}/Cargo.lock', dst)
    toml = open(f'{REPO}/Cargo.toml').read()
    # the man page and completion generator is not part of the program
    toml = re.sub(r'\[build-dependencies\][^\[]*', '', toml)
    toml = re.sub(r'^build\s*=.*$', '', toml, flags=re.M)
    open(f'{dst}/Cargo.toml', 'w').write(toml + '\n[workspace]\n')


MAIN = re.compile(r'^([ \t]*)((?:pub(?:\([^)]*\))?\s+)?)fn main\(\)', re.M)


def build_driver(work, log):
    """Builds the driver. Returns (path of the binary or None, ops that do not
    fit the current source, error text)."""
    d = f'{work}/drv'
    copy_src(d)
    main = open(f'{d}/src/main.rs').read()
    if not MAIN.search(main):
        return None, [], 'no `fn main()` in src/main.rs'
    main = MAIN.sub(r'\1\2fn pemv_main()', main, count=1)
    typed = re.search(r'pub trait DisplayBreakdown[^{]*\{', main)
    if typed:
        main = (main[:typed.end()] +
                '\n\tfn vdrv_type_name(&self) -> &\'static str {\n\t\tstd::any::type_name::<Self>()\n\t}\n' +
                main[typed.end():])
    main += '''
mod vdrv;
fn main() {
	if std::env::args().nth(1).as_deref() == Some("--vdrv") {
		vdrv::run();
	} else {
		pemv_main();
	}
}
'''
    open(f'{d}/src/main.rs', 'w').write(main)
    ops = {}
    for f in sorted(glob.glob(f'{VERIF}/drv/ops/*.rs')):
        ops[os.path.basename(f)[:-3]] = re.findall(r'^pub fn (\w+)\(a: Args\)', open(f).read(), re.M)
    os.makedirs(f'{d}/src/vdrv')
    dropped, text = [], ''
    for _ in range(len(ops) + 1):
        drv = open(f'{VERIF}/drv/vdrv.rs').read()
        for m in ops:
            shutil.copy(f'{VERIF}/drv/ops/{m}.rs', f'{d}/src/vdrv/{m}.rs')
            drv += f'mod {m};\n'
        drv += 'fn dispatch(op: &str, a: Args) {\n\tmatch op {\n'
        for m in ops:
            for o in ops[m]:
                drv += f'\t\t"{o}" => {m}::{o}(a),\n'
        drv += '\t\t_ => print!("\\u{1}NOOP"),\n\t}\n}\n'
        open(f'{d}/src/vdrv.rs', 'w').write(drv)
        p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=d, env=ENV, capture_output=True, text=True)
        log.write(p.stderr)
        if p.returncode == 0:
            return f'{d}/target/debug/pemv', dropped, text
        bad = {m for m in re.findall(r'--> src/vdrv/(\w+)\.rs', p.stderr)} & set(ops)
        text += p.stderr[-3000:]
        if not bad:
            return None, dropped, text
        for m in bad:
            dropped += ops.pop(m)
    return None, dropped, text


def expand():
    """(the crate after macro expansion by rustc, error text): the dependencies
    are built as usual; only rustc's run on the crate itself gets the flag"""
    w = tempfile.mkdtemp(prefix='pemv_expand_')
    try:
        copy_src(f'{w}/c')
        wr = f'{w}/rustc'
        open(wr, 'w').write('#!/bin/sh\nRUSTC_BOOTSTRAP=1 exec "$@"\n')
        os.chmod(wr, 0o755)
        p = subprocess.run(['cargo', 'rustc', '--offline', '--quiet', '--profile=check', '--bin', 'pemv', '--', '-Zunpretty=expanded'],
                           cwd=f'{w}/c', env=dict(ENV, RUSTC_WORKSPACE_WRAPPER=wr, CARGO_TARGET_DIR=f'{w}/t'), capture_output=True, text=True)
        return (p.stdout, '') if p.returncode == 0 and p.stdout else (None, p.stderr)
    finally:
        shutil.rmtree(w, ignore_errors=True)
