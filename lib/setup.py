"""setup_cmd: builds the driver once and parses every specification."""
import sys; sys.dont_write_bytecode = True
import build, os, subprocess
print(build.build())
