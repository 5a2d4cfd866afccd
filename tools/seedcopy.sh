rm -rf /tmp/seed; cp -a /repo /tmp/seed
