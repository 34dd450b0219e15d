"""The interface of libsim for programs written in Alusus."""
PRELUDE = '''
module Sim {
    def serve: @expname[sim_serve] function (): Int;
    def done: @expname[sim_done] function ();
    def next: @expname[sim_next] function (): Int;
    def nextl: @expname[sim_nextl] function (): Int[64];
    def left: @expname[sim_left] function (): Int;
    def str: @expname[sim_str] function (i: Int): ptr[array[Char]];
    def strlen: @expname[sim_strlen] function (i: Int): Int[64];
    def log: @expname[sim_log] function (tag: Int, v: Int[64]);
    def logs: @expname[sim_logs] function (tag: Int, s: ptr[array[Char]]);
    def logb: @expname[sim_logb] function (tag: Int, s: ptr[array[Char]], n: Int[64]);
    def logw: @expname[sim_logw] function (tag: Int, s: ptr[array[WChar]]);
    def logf: @expname[sim_logf] function (tag: Int, v: Float[64]);
    def mark: @expname[sim_mark] function (k: Int);
    def track: @expname[sim_track] function (on: Int);
    def checkHeap: @expname[sim_check_heap] function (): Int;
    def handles: @expname[sim_handles] function (): Int;
    def dirs: @expname[sim_dirs] function (): Int;
    def procs: @expname[sim_procs] function (): Int;
    def curls: @expname[sim_curls] function (): Int;
    def dumpFs: @expname[sim_dumpfs] function ();
    def clock: @expname[sim_clock] function (): Int[64];
    def stdinRest: @expname[sim_stdin_rest] function ();
    def alloc2: @expname[sim_alloc2] function (size: ArchInt): ptr[Void];
    def realloc2: @expname[sim_realloc2] function (p: ptr[Void], size: ArchInt): ptr[Void];
    def allocAligned2: @expname[sim_allocal2] function (alignment: ArchInt, size: ArchInt): ptr[Void];
    def free2: @expname[sim_free2] function (p: ptr[Void]);
}
'''
