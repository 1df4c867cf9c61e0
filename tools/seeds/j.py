"""Bugs of the command lines of the servers."""
M, H = "src/bin/main.rs", "src/bin/http-server/main.rs"
RUN = '''
def run(binary, *args, wait=3, cwd=None):
    """The exit status of a server, None if it still runs after a while."""
    p = subprocess.Popen(
        [os.path.abspath("target/debug/" + binary), *args],
        stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=cwd,
    )
    try:
        return p.wait(wait)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None


'''

SPECS = [
dict(
    id="c27-unprivileged", property="C27",
    needs="A UCI port below 1024.",
    breaks="The server refuses it.",
    edits=[(M, '#[arg(short, long, value_name = "UCI_PORT", default_value_t = DEFAULT_UCI_PORT)]', '#[arg(short, long, value_name = "UCI_PORT", default_value_t = DEFAULT_UCI_PORT,\n        value_parser = clap::value_parser!(u16).range(1024..))]')],
    demo=RUN + '''
# The port may be in use or need a privilege: that is no matter of the usage.
for port in ("1024", "1023", "255", "1"):
    check(run("pica", "--uci-port", port) != 2, "port %s is refused" % port)
check(run("pica", "--uci-port", "65536") == 2, "port 65536 is accepted")
'''),
dict(
    id="c27-last-wins", property="C27",
    needs="An option given twice.",
    breaks="The server runs, with one of the two values.",
    edits=[(M, '#[command(name = "pica", about = "Virtual UWB subsystem")]', '#[command(name = "pica", about = "Virtual UWB subsystem", args_override_self = true)]')],
    demo=RUN + '''
a, b = str(free_port()), str(free_port())
check(run("pica", "--uci-port", a) is None, "the server does not run")
check(run("pica", "--uci-port", a, "-u", b) not in (None, 0), "the server runs with two ports")
'''),
dict(
    id="c27-relative-directory", property="C27",
    needs="A relative directory for the traces.",
    breaks="No traces are recorded.",
    edits=[(H, "Pica::new(Box::new(context.clone()), args.pcapng_dir)", "Pica::new(Box::new(context.clone()), args.pcapng_dir.filter(|dir| dir.is_absolute()))")],
    demo='''
import tempfile

for relative in (False, True):
    with tempfile.TemporaryDirectory() as d:
        server = Server("pica-http", args=["-p", os.path.relpath(d) if relative else d])
        host = server.host()
        host.count()
        time.sleep(0.5)
        check(len(os.listdir(d)) == 1, "traces: %r, relative: %r" % (os.listdir(d), relative))
        server.close()
'''),
dict(
    id="c27-waits-for-port", property="C27",
    needs="The UCI port is in use.",
    breaks="The server runs without listening, instead of ending.",
    edits=[(M, "    let uci_listener = TcpListener::bind(uci_socket).await?;\n", "    let uci_listener = loop {\n        match TcpListener::bind(uci_socket).await {\n            Ok(listener) => break listener,\n            Err(_) => tokio::time::sleep(ACCEPT_RETRY_DELAY).await,\n        }\n    };\n")],
    demo=RUN + '''
s = socket.create_server(("127.0.0.1", 0))
check(run("pica", "-u", str(s.getsockname()[1]), wait=10) not in (None, 0), "the server runs without a port")
'''),
]
