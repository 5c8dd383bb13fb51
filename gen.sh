#!/bin/bash
cd /verif && gofmt -w harness/h && python3 tools/mkall.py && python3 tools/mkharness.py && python3 tools/mkmanifest.py
