set -e
cd /verif
n=$1; shift
g++ -std=c++20 -w -O1 -g -fsanitize=thread -DASIOEXT_STANDALONE -I${REPO:-/repo}/include -Imc -Ichecks $* -c checks/$n.cpp -o /tmp/$n.o
g++ -std=c++20 -O1 -g -c mc/sched.cpp -o /tmp/sched.o & g++ -std=c++20 -w -O1 -g -c mc/simfs.cpp -o /tmp/simfs.o; wait
g++ -pthread -rdynamic /tmp/$n.o /tmp/sched.o /tmp/simfs.o -ldl -o /tmp/$n
