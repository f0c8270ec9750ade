#!/bin/bash
exec "$(cd "$(dirname "$0")" && pwd)/run.sh" build
