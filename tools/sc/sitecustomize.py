import sys
sys.meta_path = [f for f in sys.meta_path if 'ScikitBuild' not in type(f).__name__]
