#!/usr/bin/env python3
"""Re-executes a recorded violation against /repo's working tree: tools/replay.py <replays/...json> [-t]
With -t every shared access is printed."""
import json, os, subprocess, sys
sys.argv, args = [sys.argv[0], 'C01'], sys.argv[1:]
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
v = json.load(open(args[0]))
real = v['engine'] == 'real'
env = dict(os.environ, CARGO_TARGET_DIR=VERIF + '/mc/target' + ('/real' if real else ''))
env.update({'RUSTFLAGS': '--cfg congee_verif -Awarnings'} if real else {'RUSTC_WRAPPER': VERIF + '/mc/wrap.sh'})
subprocess.run(['cargo', '+nightly', 'build', '--offline', '--locked', '-q', '--profile', v['profile']],
               cwd=VERIF + ('/mc/real' if real else '/mc/harness'), env=env, check=True)
b = VERIF + '/mc/target/' + ('real/release/real' if real else ('debug' if v['profile'] == 'dev' else v['profile']) + '/mc')
if '-t' in args:
    env['MC_TRACE'] = '1'
cmd = [b, 'replay', v['engine'], v['property'], v['tier'], str(v['index'])] + ([v['schedule']] if v['schedule'] else [])
print(' '.join(cmd))
sys.exit(subprocess.run(cmd, env=env).returncode)
