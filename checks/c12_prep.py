from lib.boxer import compile_boxer
compile_boxer()
