// the stock fairmq-shmmonitor program, built from the repository's source
#include <fairmq/shmem/runMonitor.cxx>
