#!/bin/bash
# builds the simulation in every configuration
exec bash "$(dirname "$0")/build.sh" A B C D T P
