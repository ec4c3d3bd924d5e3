import sys, os, re, subprocess, json, glob, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gen_tables, rustsrc, extract, overlay, statemap, inline

def expand(repo, target):
    env = dict(os.environ, RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN='stable')
    p = subprocess.run(['cargo', 'rustc', '--offline', '--lib', '--all-features', '--profile=check', '--', '-Zunpretty=expanded'], cwd=repo, env=env, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('cargo rustc -Zunpretty=expanded failed:\n' + p.stderr[-3000:])
    return p.stdout

def dep_source(name):
    c = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/%s/src/lib.rs' % name)))
    return open(c[0]).read()

SPECS = ('re', 'abnf', 'tables', 'cert', 'dfa', 'sp', 'seg', 'laws', 'gf', 'views', 'x_std', 'x_std2', 'x_dep')
def assemble(text, select=None, groups=overlay.GROUPS, force=(), cache=os.path.join(VERIF, 'spec/statemap.json'), keep=False):
    """(text of the Verus crate, [Crate]); select: key -> True (verify), False (contract only), None (leave out)"""
    st = ''
    rustsrc.known(overlay.keys())
    text, unfolded = inline.run(text, lambda k, it: k in overlay.T, overlay.KNOWN_RE.search)
    src = rustsrc.Src(text)
    if 'grammar' in groups:
        st = statemap.text(statemap.compute(src, gen_tables.build(), overlay.AUTOMATA, cache))
    overlay.PRESENT = set(rustsrc.canon(it.key) for it in src.walk() if it.kind == 'impl' and it.key)
    ov = overlay.Overlay(st, groups, {it.key: src.text[it.a:it.b] for it in src.walk() if it.kind == 'struct' and it.key in overlay.overlay_views.FIELDS}); ov.keep_unknown = keep
    cr = extract.Crate(text, ov, select); cr.force = set(force); cr.unfolded = unfolded
    code = cr.build()
    crates = [cr]
    def dep(file, mod, fix):
        t = re.sub(r'(?m)^//!.*$|^(pub )?use .*;$|^#!\[.*$', '', fix(dep_source(file)))
        c = extract.Crate('mod %s {%s}' % (mod, t), ov, select); c.force = set(force); c.unfolded = {}; crates.append(c)
        return 'pub mod %s {\n%s}\n' % (mod, c.module(c.src.items[0].children, (mod,)))
    # the decoder used by the validators, from the vendored source of static-automata
    if 'grammar' in groups:
        code += dep('static-automata-1.1.0', 'x_static_automata', lambda t: t[:t.index('#[cfg(test)]')].replace('#[derive(Debug)]', ''))
    # the Buffer trait, from the vendored source of str-newtype
    if 'buf' in groups:
        code += dep('str-newtype-2.0.0', 'x_str_newtype', lambda t: t)
    spec = ''.join(open(os.path.join(VERIF, 'spec', f + '.rs')).read() for f in SPECS)
    return '#![feature(sized_hierarchy, allocator_api, panic_internals, derive_clone_copy_internals, derive_eq_internals, core_intrinsics)]\n#![allow(internal_features, unused, dead_code, non_snake_case)]\n' + spec + code + '\nfn main() {}\n', crates

if __name__ == '__main__':
    t0 = time.time()
    text = open(sys.argv[1]).read()
    out, cs = assemble(text)
    open(sys.argv[2], 'w').write(out)
    print('%.1fs verified %d assumed %d dropped %d uncontracted %d lost %s' % (time.time() - t0, sum(len(c.verified) for c in cs), sum(len(c.assumed) for c in cs), len(cs[0].dropped), len(cs[0].uncontracted), [c.lost for c in cs]))
