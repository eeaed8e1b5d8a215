"""Runs a management command in a process of its own whose sleeps are decided by the monitor instead of the clock."""
import os
import socket
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def sleep(seconds):
    s = socket.socket(socket.AF_UNIX)
    s.connect(os.environ["VSOCK"])
    s.sendall(("%d %s\n" % (os.getpid(), seconds)).encode())
    s.recv(10)
    s.close()


time.sleep = sleep

import boot  # noqa
boot.setup(create=False, install=False)
from django.core.management import execute_from_command_line  # noqa
execute_from_command_line(["manage"] + sys.argv[1:])
