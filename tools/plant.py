"""plant(id, prop, edits, needs, breaks, main): writes seeded/<id> and tries its demonstration with and without the change,
in the scratch copy /tmp/wt with the scratch build /tmp/demo-w (see tools/demo)."""
import os, subprocess, json, shutil
WT='/tmp/wt'; W='/tmp/demo-w'
HEAD="mod chain;\nmod chainkit;\nmod users;\nuse chainkit::*;\n"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def prepare():
    if not os.path.exists(WT): sh(f'cp -a /repo {WT}')
    sh(f'git -C {WT} checkout -q -- . && git -C {WT} fetch -q /repo && git -C {WT} reset -q --hard FETCH_HEAD')
    sh(f'bash /verif/tools/demo/pack.sh /tmp/sdk.tar.gz')
    os.makedirs(W, exist_ok=True)
    # keep times so that only what changed is rebuilt
    sh(f'rm -rf {W}.new; mkdir {W}.new; tar xzf /tmp/sdk.tar.gz -C {W}.new; cd {W}.new; grep -rlE "/repo/" . --include=Cargo.toml --include=*.rs | xargs sed -i "s#\\"/repo/#\\"{WT}/#g"; rsync -rc --exclude target {W}.new/ {W}/ || cp -r {W}.new/. {W}/; rm -rf {W}.new')
def run_demo(unit):
    if unit:
        r=sh(f'cd {WT} && bash {unit}', timeout=600)
        return r.returncode, (r.stdout+r.stderr)[-600:]
    r=sh(f'export SIM_TARGET_DIR={W}/target; . {W}/env.sh; cd {W} && cargo build -q --offline -p demo --message-format short 2>&1 | grep -E "error" | head -20; exit ${{PIPESTATUS[0]}}', executable='/bin/bash')
    if r.returncode: return 99, r.stdout[-2500:]
    r=sh(f'{W}/target/debug/demo', timeout=280)
    return r.returncode, (r.stdout+r.stderr)[-600:]
def plant(id, prop, edits, needs, breaks, main, unit=None):
    d=f'/verif/seeded/{id}'
    sh(f'git -C {WT} checkout -q -- .')
    os.makedirs(d, exist_ok=True)
    if unit is None:
        open(f'{W}/demo/src/main.rs','w').write(HEAD+main)
    else:
        for n,t in unit.items(): open(f'{d}/{n}','w').write(t)
    u=f'{d}/demo.sh' if unit else None
    a=run_demo(u)
    for f,o,n in edits:
        p=f'{WT}/{f}'; s=open(p).read()
        assert s.count(o)==1, (id, f, s.count(o), o)
        open(p,'w').write(s.replace(o,n))
    diff=sh(f'git -C {WT} diff').stdout
    b=run_demo(u)
    sh(f'git -C {WT} checkout -q -- .')
    good = a[0]==0 and b[0] not in (0,99)
    print(id, 'GOOD' if good else 'BAD', 'clean', a[0], '' if a[0]==0 else a[1], '| planted', b[0], b[1].strip()[-300:] if good or b[0]!=99 else b[1])
    if not good:
        shutil.rmtree(d); return False
    open(f'{d}/patch.diff','w').write(diff)
    if unit is None:
        open(f'{d}/main.rs','w').write(HEAD+main)
        shutil.copy('/tmp/sdk.tar.gz', d)
        shutil.copy('/verif/tools/demo/demo.sh', d)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(f'{d}/meta.json','w'), indent=1)
    return True
