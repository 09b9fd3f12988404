// The logging library is a git submodule which is absent here: its macros do nothing (their arguments are not evaluated).
#pragma once
#include <iostream>
namespace ConcLog { class Logger { }; struct LogScopeManager { }; class ProgressIndicator { public: template<class... A> ProgressIndicator(A const&...) { } template<class... A> void update_current(A const&...) { } template<class... A> void update_final(A const&...) { } char symbol() const { return ' '; } unsigned percentage() const { return 0; } }; }
#define CONCLOG_SCOPE_CREATE
#define CONCLOG_PRINTLN(text) { }
#define CONCLOG_PRINTLN_AT(level, text) { }
#define CONCLOG_PRINTLN_VAR(var) { }
#define CONCLOG_PRINTLN_VAR_AT(level, var) { }
#define CONCLOG_RUN_AT(level, fn) fn;
#define CONCLOG_RUN_MUTED(fn) fn;
#define CONCLOG_SCOPE_PRINTHOLD(text) { }
#define CONCLOG_SCOPE_PRINTHOLD_AT(level, text) { }
