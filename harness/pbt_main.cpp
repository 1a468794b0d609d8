int pbt_main(int, char **);
int main(int argc, char **argv) { return pbt_main(argc, argv); }
