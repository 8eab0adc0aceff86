#!/usr/bin/env python3
"""Lay the demonstration kit (stand-in host, driver) into every /verif/seeded/<id>/."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = os.path.join(V, "seedkit/kit")
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    k = os.path.join(d, "kit")
    if os.path.isdir(k):
        shutil.rmtree(k)
    os.makedirs(os.path.join(k, "shim"))
    shutil.copy(os.path.join(K, "Cargo.toml"), k)
    shutil.copy(os.path.join(V, "harness/shim/Cargo.toml"), os.path.join(k, "shim"))
    os.makedirs(os.path.join(k, "stub/src"))
    shutil.copy(os.path.join(V, "harness/stub/Cargo.toml"), os.path.join(k, "stub"))
    for f in os.listdir(os.path.join(V, "harness/stub/src")):
        shutil.copy(os.path.join(V, "harness/stub/src", f), os.path.join(k, "stub/src"))
    env = open(os.path.join(V, "harness/src/env.rs")).read().replace("crate::fw::install_panic_hook();", 'std::panic::set_hook(Box::new(|i| eprintln!("{i}")));')
    open(os.path.join(k, "env.rs"), "w").write("#![allow(dead_code)]\n" + env)
    open(os.path.join(k, "wire.rs"), "w").write("#![allow(dead_code)]\n" + open(os.path.join(V, "harness/src/wire.rs")).read())
    lock = os.path.join(V, "harness/Cargo.lock")
    t = open(lock).read().replace('name = "harness"', 'name = "demo"')
    open(os.path.join(k, "Cargo.lock"), "w").write(t)
    shutil.copy(os.path.join(K, "demo.sh"), d)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
