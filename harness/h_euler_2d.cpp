#include "h_euler.hpp"
int main(int argc, char **argv) { return eh::mainOf<DNDS::Euler::NS_2D>(argc, argv); }
