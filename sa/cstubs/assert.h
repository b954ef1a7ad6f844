void assert(int);
