#!/bin/bash
/verif/run.sh build
