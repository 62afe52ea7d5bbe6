#!/bin/bash
exec /verif/run.sh build
