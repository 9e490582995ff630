# Builds the check binaries from /repo's working tree (sanitized) and /verif/harness.
REPO ?= /repo
B ?= /verif/build
CXX = clang++
SAN = -fsanitize=address,bounds,integer-divide-by-zero,unreachable,return,bool,enum -fno-sanitize-recover=all -fno-omit-frame-pointer
CXXFLAGS = -std=c++17 -O1 -g1 -w $(SAN) -I/usr/include/lua5.2
SRCS := $(filter-out $(REPO)/src/mewa.cpp,$(wildcard $(REPO)/src/*.cpp))
SRCOBJ := $(patsubst $(REPO)/src/%.cpp,$(B)/src_%.o,$(SRCS)) $(B)/src_mewa_main.o
COMMON := $(B)/h_engine.o $(B)/h_mewa.o $(B)/h_lr.o
GROUPS := typedb typedb_misuse util lexer grammar gen run
BINS := $(patsubst %,$(B)/check_%,$(GROUPS))
HDRS := $(wildcard $(REPO)/src/*.hpp) $(wildcard harness/*.hpp)

all: $(BINS)
check_%: $(B)/check_%
	@:
.PHONY: all
.SECONDARY:

$(B)/src_mewa_main.o: $(REPO)/src/mewa.cpp $(HDRS)
	$(CXX) $(CXXFLAGS) -include cstdint -Dmain=mewa_main -c -o $@ $<
$(B)/src_%.o: $(REPO)/src/%.cpp $(HDRS)
	$(CXX) $(CXXFLAGS) -include cstdint -c -o $@ $<
$(B)/h_%.o: harness/%.cpp $(HDRS)
	$(CXX) -std=c++17 -O1 -g1 -Wall -Wno-unused-function $(SAN) -I/usr/include/lua5.2 -Iharness -c -o $@ $<
$(B)/check_%: $(B)/h_%.o $(COMMON) $(SRCOBJ)
	$(CXX) $(SAN) -o $@ $^ -llua5.2 -ldl
