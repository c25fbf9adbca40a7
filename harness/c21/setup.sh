. "$here/harness/c21/run.sh" --setup
