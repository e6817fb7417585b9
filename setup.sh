#!/bin/bash
# builds the executor unless the committed binary already matches its sources
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'lib')
from lower import engine_path
print(engine_path())"
