import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import ref
ref.selftest()
import hypothesis
print('reference algebra self-test ok; hypothesis', hypothesis.__version__)
