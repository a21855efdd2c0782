#!/bin/bash
python3 -c "
import json,sys;d=json.load(open('$1'));print(json.dumps(d['case']));print(d['trace'][-${2:-1200}:])"
