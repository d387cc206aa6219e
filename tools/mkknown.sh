#!/bin/bash
# Lists all library sources the pinned CMake files name (so that sources added later are noticed).
cd /repo
{ grep -oE '(src|3rdparty)/[A-Za-z0-9_/.+-]+\.(C|cpp|f)\b' CMakeLists.txt
  grep -oE '\b[A-Za-z0-9_]+\.C\b' Apps/Utils/CMakeLists.txt | sed 's#^#Apps/Utils/#'; } | sort -u > /verif/tools/known_sources.txt
