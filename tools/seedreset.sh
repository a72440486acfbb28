#!/bin/bash
# fresh copy of /repo in /tmp/seed
rm -rf /tmp/seed; cp -a /repo /tmp/seed
