"""Builds what some families need besides the driver, from /repo's working tree."""
import os, shutil

REPO = "/repo"
HERE = os.path.dirname(os.path.abspath(__file__))


def build(name, check):
    return globals()["build_" + name](check)


def go(check, pkg, out, flags=()):
    from check import CheckError
    env = dict(check.env, GOFLAGS="-mod=readonly")
    rc, o, e = check.run(["go", "build", "-o", out, *flags, pkg], REPO, 600, env=env)
    if rc != 0:
        raise CheckError("%s does not build: %s" % (pkg, e[-3000:]))


def build_server(check):
    out = os.path.join(check.work, "uip-server")
    go(check, "./cmd/server", out, ["-race"])
    return {"UIP_SERVER": out}


def build_converter(check):
    out = os.path.join(check.work, "uip-converter")
    go(check, "./cmd/converter", out)
    return {"UIP_CONVERTER": out}


def rust(check, d, what):
    from check import CheckError
    shutil.copytree(os.path.join(HERE, "readers/rust"), d)
    rc, o, e = check.run(["cargo", "build", "--offline", "--quiet", "--bin", what], d, 800, env=dict(check.env, CARGO_TARGET_DIR=os.path.join(d, "target")))
    if rc != 0:
        raise CheckError("the Rust reader does not build: " + e[-3000:])
    return os.path.join(d, "target/debug", what)


def build_cli(check):
    out = os.path.join(check.work, "uip-simple")
    go(check, "./cmd/simple", out)
    return {"UIP_SIMPLE": out, "UIP_QUERY": rust(check, os.path.join(check.work, "rustcli"), "query")}


def build_readers(check):
    """The Java and the Rust reader, each behind a program that answers line by line."""
    from check import CheckError
    d = os.path.join(check.work, "readers")
    shutil.copytree(os.path.join(HERE, "readers/java"), os.path.join(d, "java"))
    classes = os.path.join(d, "classes")
    export = ["--add-exports", "java.base/sun.net.util=ALL-UNNAMED"]
    ask = rust(check, os.path.join(d, "rust"), "ask")
    src = [os.path.join(r, f) for top in (os.path.join(d, "java"), os.path.join(REPO, "java/src/main/java")) for r, _, fs in os.walk(top) for f in fs if f.endswith(".java")]
    rc, o, e = check.run(["javac", "-nowarn", "-encoding", "UTF-8", "-d", classes, *export, *src], d, 300)
    if rc != 0:
        raise CheckError("the Java reader does not build: " + e[-3000:])
    return {"UIP_RUST": ask,
            "UIP_JAVA": " ".join(["java", "-Xmx256m", "-XX:+UseSerialGC", "-Dfile.encoding=US-ASCII", *export, "-cp", classes, "Ask"])}
