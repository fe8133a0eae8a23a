. mc/build_C01.sh
