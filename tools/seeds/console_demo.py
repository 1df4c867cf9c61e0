"""Runs the console of the repository against a socket that records."""
import os
import re
import socket
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))


def check(ok, what):
    if not ok:
        print("DEMO: property broken:", what)
        sys.exit(1)


class Console:
    def __init__(self):
        listener = socket.create_server(("127.0.0.1", 0))
        port = listener.getsockname()[1]
        env = dict(os.environ, PYTHONPATH=HERE, PYTHONUNBUFFERED="1")
        self.process = subprocess.Popen(
            [sys.executable, "-B", "py/pica/console.py", "--uci-port", str(port)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
        )
        listener.settimeout(30)
        self.socket, _ = listener.accept()

    def enter(self, line, wait=1.5):
        """What is sent after a line."""
        self.process.stdin.write(line.encode() + b"\n")
        self.process.stdin.flush()
        self.socket.settimeout(wait)
        data = b""
        while True:
            try:
                more = self.socket.recv(65536)
            except socket.timeout:
                return data
            if not more:
                return data
            data += more

    def receive(self, data):
        self.socket.sendall(data)
        time.sleep(1)

    def quit(self):
        """What was printed."""
        out, _ = self.process.communicate(b"quit\n", timeout=20)
        check(self.process.returncode == 0, out.decode())
        return out.decode()
