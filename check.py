#!/opt/venv/bin/python
"""check.py <property>: decide one property on the current working tree of /repo"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    from engine import runner
    runner.main(sys.argv[1])
