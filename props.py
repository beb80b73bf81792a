"""What each check runs and what it says about itself."""
DISK = "the disk (an in-memory file served through the libc seam: fopen/read/lseek/fstat/fclose)"
DT = "the external ggdatetime library (shim/ggdatetime: dates, second types, strptime), which is not installed here"
REAL = "all of libgnss as compiled from /repo/src (both build flavours), libstdc++ file streams"
COMMON = [
    "ggdatetime is replaced by a stand-in with the semantics the code uses; defects of the real ggdatetime are out of reach",
    "allocation failure is not injected: the library declares its calls noexcept, so std::bad_alloc terminates by design",
    "a clean batch is evidence over the sampled schedules, faults and files, not a proof",
]
PROPS = {
    "C01": dict(domain="obs", quick=150000, thorough=3000000,
        rule="Each run generates a valid observation file, a request map, an I/O behaviour (read sizes, EINTR) and ambient errno/stack/heap contents, reads the file to the end through the real reader and compares every call with the model. Non-trivial: at least one epoch and one requested observable."),
    "C02": dict(domain="obs", quick=150000, thorough=3000000,
        rule="Each run damages a valid observation file (cut, I/O error, flipped bytes; flipped bytes only in the production flavour because the DEBUG flavour asserts on them), reads until the first non-zero status and compares every delivered epoch with the model. Every run is non-trivial."),
    "C03": dict(domain="obs", quick=125000, thorough=2500000,
        rule="Each run executes a random session of reads, rewinds, map changes, armed transient I/O errors and failing seeks against a cursor model, then stops the faults and requires full recovery. Non-trivial: at least one successful rewind inside the session."),
    "C04": dict(domain="nav", quick=150000, thorough=3000000,
        rule="Each run generates a valid navigation file (mixed or single system), an I/O behaviour and ambient errno/stack contents, and executes a random session of read/peek/ignore/find-next/rewind calls against a list-with-cursor model. Non-trivial: at least one record."),
    "C05": dict(domain="nav", quick=100000, thorough=2000000,
        rule="Each run generates a time-ordered navigation file and walks simulated time forward (steps and jumps, instants at validity boundaries, across day and week ends), comparing every find_next_valid answer with the model. Non-trivial: at least one query answered with a message."),
    "C06": dict(domain="nav", quick=150000, thorough=3000000,
        rule="Each run damages a valid navigation file (cut, transient or lasting I/O error, flipped bytes in the production flavour) and reads, ignores, peeks and searches through it; everything delivered is compared with the model, then the fault stops and a rewind must restore the session. Every run is non-trivial."),
    "C07": dict(domain="sp3", quick=150000, thorough=3000000,
        rule="Each run generates a valid SP3-c/d file, an I/O behaviour and ambient state and iterates it with rewinds (and transient faults before them), comparing every epoch with the model. Non-trivial: at least one epoch with a satellite."),
    "C08": dict(domain="sp3", quick=150000, thorough=3000000,
        rule="Each run damages a valid SP3 file (cut, I/O error, flipped bytes in the production flavour) and iterates to the first non-zero status, comparing every delivered epoch with the model. Every run is non-trivial."),
    "C09": dict(domain="antex", quick=75000, thorough=1500000, share={"prod": 0.5, "debug": 0.5},
        rule="Each run generates a valid ANTEX file (satellites with several validity intervals, receivers, many frequencies), an I/O behaviour and ambient state and executes a random history of satellite and receiver lookups, some of them under a transient I/O error, comparing status, type, SVN, COSPAR and (DEBUG flavour, where the reader shows them) the offsets of every lookup with the model. Non-trivial: at least one satellite lookup that is answered."),
    "C10": dict(domain="antex", quick=75000, thorough=1500000, share={"prod": 0.5, "debug": 0.5},
        rule="As C09, with receiver lookups: exact, with and without demanded serial, missing, and partially matching names. Non-trivial: at least one receiver lookup that is answered."),
    "C11": dict(domain="antex", quick=75000, thorough=1500000,
        rule="Each run damages a valid ANTEX file (cut, flipped bytes in the production flavour, transient or lasting I/O errors) and executes a history of lookups, then stops the transient faults and requires full recovery. Every run is non-trivial."),
    "C12": dict(domain="bern", quick=150000, thorough=3000000,
        rule="Each run generates a valid SATELLIT file, an I/O behaviour and ambient state and executes a random history of channel lookups, some of them under injected I/O errors or failing seeks, comparing each with the model. Non-trivial: at least one lookup that finds a record."),
    "C13": dict(domain="life", quick=150000, thorough=3000000,
        rule="Each run constructs one of the five readers on a whole, missing, cut, unreadable or damaged header (flipped bytes in the production flavour), with open failures, I/O errors and failing seeks, and checks acceptance, exception, descriptors and memory against the model. Every run is non-trivial."),
    "C14": dict(domain="life", quick=100000, thorough=2000000,
        rule="Each run executes one session on one reader while the reader is moved (constructed from, assigned, swapped, put into vectors, self-assigned through a temporary) at random points, and compares every answer with a model that knows no moves. Non-trivial: at least one move inside the session."),
    "C15": dict(domain="life", quick=40000, thorough=800000,
        rule="Each run executes two to four sessions, each by its own simulated thread, preempted at basic-block granularity by the seeded scheduler inside the library, on shared or separate files; each session is compared with its own model. Non-trivial: at least one preemption inside a library call."),
    "C16": dict(domain="orbit", quick=100000, thorough=2000000,
        rule="Each run stores a navigation file of GPS, Galileo and BeiDou messages, reads it through the simulated disk (read splitting, EINTR, sometimes an I/O error followed by a rewind), and lets simulated receivers walk, jump and stand in time within half a day of the ephemerides (day, week, year ends), in three second types, backwards, repeatedly and from preempted threads sharing the messages; every position and clock is compared with an independent long double model. Non-trivial: every run with at least one evaluation."),
    "C17": dict(domain="orbit", quick=75000, thorough=1500000,
        rule="As C16 with GLONASS messages and instants within 15 minutes of the ephemeris, compared with a 10 s long double integration of the ICD equations; instants further away must be flagged. Non-trivial: every run with at least one evaluation."),
    "C18": dict(domain="kalman", quick=20000, thorough=400000, stub=[], real=["ngpt::Kalman<5> from /repo/src/gauss_newton.hpp (both build flavours), Eigen"],
        rule="Each run simulates a receiver, satellites and a channel that loses, duplicates, delays and reorders measurement epochs and drops satellites; the filter's printed state and deviations are compared after the epochs with an independent information-form filter in long double, a second filter gets the satellites in another order, and after the faults stop the filter must be at the truth within 40 epochs. Non-trivial: at least one epoch delivered."),
    "C22": dict(domain="pos", quick=10000, thorough=300000,
        real=[REAL, "ngpt::Kalman<5> from /repo/src/gauss_newton.hpp, Eigen"],
        rule="Each run simulates a receiver and satellites, stores what they recorded in an observation and a navigation file, and executes a positioning program over both through the real readers, orbit evaluation and filter, with read splitting, EINTR, transient I/O errors answered by rewinds, outages, lost satellites, missing, unhealthy and superseded messages, readers moved on the way, and sometimes a second such program preempted at basic blocks; every epoch, message, orbit and filter state is compared with the world and an independent filter. Non-trivial: at least one epoch reached the filter."),
}
for _k, _v in PROPS.items():
    _v.setdefault("real", [REAL])
    _v.setdefault("stub", [DISK, DT])
    _v.setdefault("assumptions", COMMON)
