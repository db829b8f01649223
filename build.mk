# Builds PML (ntl-extras) from /repo's working tree plus the trace drivers of
# /verif/harness into /verif/build.  Same compiler and flags as the project.
SHELL := /bin/bash
R ?= /repo/ntl-extras
V := $(patsubst %/,%,$(dir $(abspath $(lastword $(MAKEFILE_LIST)))))
B ?= $(V)/build
CXX := g++
CXXFLAGS := -std=c++11 -O3 -w
DRVFLAGS := -std=c++11 -O1 -w
LIBS := -lntl -lpthread -lgmp -lm
DIRS := $(shell sed -n 's/^DIRS *= *//p' $(R)/Makefile)
ORIG := $(foreach d,$(DIRS),$(wildcard $(R)/$(d)/*.orig))
GEN := $(foreach o,$(ORIG),$(if $(wildcard $(o:.orig=.h)),,$(B)/include/$(notdir $(o:.orig=.h))))
INC := $(foreach d,$(DIRS),-I$(R)/$(d)) -I$(B)/include
SRC := $(foreach d,$(DIRS),$(wildcard $(R)/$(d)/src/*.cpp))
OBJ := $(SRC:$(R)/%.cpp=$(B)/lib/%.o)
TLAJAR := /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar

.SECONDARY:
.DELETE_ON_ERROR:
.PHONY: lib java FORCE
lib: $(B)/libpml.a
$(foreach f,$(filter-out $(GEN),$(wildcard $(B)/include/*.h)),$(shell rm -f $(f)))
define gen
$(B)/include/$(notdir $(1:.orig=.h)): $(1)
	@mkdir -p $(B)/include; cp -f $$< $$@
endef
$(foreach o,$(ORIG),$(eval $(call gen,$(o))))
$(B)/srclist: FORCE
	@mkdir -p $(B); echo '$(SRC)' | cmp -s - $@ || echo '$(SRC)' > $@
$(B)/libpml.a: $(OBJ) $(B)/srclist
	@rm -f $@; ar rcs $@ $(OBJ)
$(OBJ): $(B)/lib/%.o: $(R)/%.cpp | $(GEN)
	@mkdir -p $(@D)
	@$(CXX) -c $< $(CXXFLAGS) $(INC) -MMD -MP -o $@
$(B)/drv/%.o: $(V)/harness/%.cpp | $(GEN)
	@mkdir -p $(@D)
	@$(CXX) -c $< $(DRVFLAGS) -I$(V)/harness $(INC) -MMD -MP -o $@
$(B)/drv/m_%.o: $(V)/harness/s_%.cpp | $(GEN)
	@mkdir -p $(@D)
	@$(CXX) -c $< $(DRVFLAGS) -DTHE_SUITE=SUITE_$* -I$(V)/harness $(INC) -MMD -MP -o $@
# the histories of C22 mix the calls of all suites
MIX := $(patsubst $(V)/harness/s_%.cpp,$(B)/drv/m_%.o,$(filter-out %/s_C22.cpp,$(wildcard $(V)/harness/s_C*.cpp)))
$(B)/drv_C22: $(B)/drv/s_C22.o $(MIX) $(B)/drv/core.o $(B)/libpml.a
	@$(CXX) -o $@ $^ $(LIBS)
$(B)/drv_%: $(B)/drv/s_%.o $(B)/drv/core.o $(B)/libpml.a
	@$(CXX) -o $@ $^ $(LIBS)
java: $(B)/classes/Algebra.class
$(B)/classes/Algebra.class: $(wildcard $(V)/spec/java/*.java)
	@mkdir -p $(B)/classes
	@javac -nowarn -cp $(TLAJAR) -d $(B)/classes $(V)/spec/java/*.java
	@touch $@
-include $(OBJ:.o=.d) $(wildcard $(B)/drv/*.d)
