#!/usr/bin/env python3
# overlay.py VERIF REPO WORKDIR PROP: write WORKDIR/ov.json, the overlay that
# adds the oracle of PROP to the package it tests (nothing is written in REPO).
import sys, glob, json, os

def overlay(verif, repo, work, prop):
    rep = {}
    if prop == 'C26':
        d = f'{repo}/examples/lisp-repl'
        for f in glob.glob(f'{d}/*_test.go'):   # the repository's own tests are not needed
            rep[f] = ''
        main = open(f'{verif}/replay/ext/vr_main_test.go').read().replace('package joeson_test', 'package main', 1)
        f = f'{work}/vr_main_lisp_test.go'
        open(f, 'w').write(main)
        rep[f'{d}/zz_vr_main_test.go'] = f
        for f in glob.glob(f'{verif}/replay/lisp/*_test.go'):
            rep[f'{d}/zz_{os.path.basename(f)}'] = f
    else:
        for f in glob.glob(f'{repo}/*_test.go'):
            rep[f] = ''
        for f in glob.glob(f'{verif}/replay/ext/*_test.go'):
            rep[f'{repo}/zz_{os.path.basename(f)}'] = f
    json.dump({'Replace': rep}, open(f'{work}/ov.json', 'w'))

if __name__ == '__main__':
    overlay(*sys.argv[1:])
