/* single-threaded native replays: nothing to add */
int verif_eng_stub;
