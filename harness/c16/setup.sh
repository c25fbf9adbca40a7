. "$here/harness/c16/run.sh" --setup
