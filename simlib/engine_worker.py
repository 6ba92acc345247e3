import sys

from simlib import engine

if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        engine.replay_child()
    elif sys.argv[1] == "--shrink":
        engine.shrink_child()
    else:
        engine.worker_main()
