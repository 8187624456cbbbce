#!/bin/bash
# check.sh <property> quick|thorough          decide a property
# check.sh <property> replay-quick|replay-thorough <case number>
# check.sh build                               build every explorer
set -u
cd "$(dirname "$0")" || exit 2
VERIF=$(pwd)
export CARGO_TARGET_DIR=${VERIF}/target CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 MC_VERIF=$VERIF
unset RUSTFLAGS CARGO_BUILD_TARGET MC_ALT_EXE

build() { # package profile
    (cd "mc/$1" && cargo build --quiet --offline --profile "$2") >"$VERIF/target/build_$1_$2.log" 2>&1 || {
        cat "$VERIF/target/build_$1_$2.log" >&2
        echo "the explorer $1 could not be built from /repo" >&2
        exit 2
    }
}

binaries() { # the command line programs of the tree
    for m in nexsys neapolitan; do
        (cd /repo && cargo build --quiet --offline --release -p $m --bins --target-dir "$VERIF/target/cli") >"$VERIF/target/build_cli_$m.log" 2>&1 || {
            cat "$VERIF/target/build_cli_$m.log" >&2
            echo "the program of $m could not be built from /repo" >&2
            exit 2
        }
    done
    export MC_CLI=$VERIF/target/cli/release
}

driver() { # name library functions: a program in C and C++ that uses the header and the library as built
    (cd /repo && cargo build --quiet --offline --release -p "$2" --lib --target-dir "$VERIF/target/cli") >"$VERIF/target/build_lib_$2.log" 2>&1 || {
        cat "$VERIF/target/build_lib_$2.log" >&2
        echo "the library $2 could not be built from /repo" >&2
        exit 2
    }
    export MC_DRIVERS=$VERIF/target/drivers
    mkdir -p "$MC_DRIVERS"
    local d=$MC_DRIVERS/$1 lib=$VERIF/target/cli/release wrap=() f
    for f in $3; do wrap+=("-Wl,--wrap=$f"); done
    rm -f "$d"
    # a program that cannot be built is for the explorer to report
    { gcc -w -std=c99 -O1 -I"/repo/$2" -c "mc/cxx/$1_c.c" -o "$d.o" &&
        g++ -w -std=c++11 -O1 -I"/repo/$2" "mc/cxx/$1.cpp" "$d.o" -L"$lib" -l"$2" -Wl,-rpath,"$lib" "${wrap[@]}" -o "$d"; } >"$d.log" 2>&1 || rm -f "$d"
}

matrix_driver() {
    driver matrix gmatlib "new_double_matrix new_double_identity_matrix multiply_matrix augment_with subset transpose clone_double_matrix inplace_row_scale inplace_scale inplace_row_add inplace_scaled_row_add trace try_inplace_invert index_mut_double_matrix index_double_matrix free_double_matrix"
}

equations_driver() {
    driver equations geqslib "new_context_hash_map new_default_context_hash_map add_const_to_ctx solve_equation new_system_builder try_constrain_with is_fully_constrained build_system debug_system_builder specify_variable solve_system free_context_hash_map free_system_builder free_system free_solution_string"
}

mkdir -p "$VERIF/target"
prop=${1:?property}
if [ "$prop" = build ]; then
    for p in mc/*/Cargo.toml; do
        n=$(basename "$(dirname "$p")")
        [ "$n" = core ] || build "$n" release
    done
    build gmat plain
    binaries
    matrix_driver
    equations_driver
    exit 0
fi
tier=${2:?tier}
if [[ $prop = U* ]]; then
    case $tier in
        quick|thorough) exec node mc/ui/main.mjs "$prop" "$tier" ;;
        replay-*) exec node mc/ui/main.mjs "$prop" "${tier#replay-}" --replay "${3:?case number}" ;;
        *) echo "unknown tier $tier" >&2; exit 2 ;;
    esac
fi
case $prop in
    G*) pkg=gmat ;;
    E*) pkg=geqs ;;
    N*) pkg=nexs ;;
    A*) pkg=neap ;;
    *) echo "unknown property $prop" >&2; exit 2 ;;
esac
build $pkg release
if [ "$prop" = G03 ]; then
    build gmat plain
    export MC_ALT_EXE=$VERIF/target/plain/mc_gmat
fi
case $prop in
    N06|N08|A05|A09) binaries ;;
    G05) matrix_driver ;;
    E11) equations_driver ;;
esac
exe=$VERIF/target/release/mc_$pkg
case $tier in
    quick|thorough) exec "$exe" "$prop" "$tier" ;;
    replay-*) exec "$exe" "$prop" "${tier#replay-}" --replay "${3:?case number}" ;;
    *) echo "unknown tier $tier" >&2; exit 2 ;;
esac
