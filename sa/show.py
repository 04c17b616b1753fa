import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import extract
from sa.mir import Program
if __name__ == "__main__":
    p = Program(extract.facts())
    for pat in sys.argv[1:]:
        for f in p.find(pat):
            print(f.dump())
