#include "h_euler.hpp"
int main(int argc, char **argv) { return eh::mainOf<DNDS::Euler::NS_3D>(argc, argv); }
