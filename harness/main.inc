int main(int argc, char** argv) { return mon::run_main(argc, argv); }
