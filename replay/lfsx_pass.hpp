// pass-through operations: the real operation on tree ROOT/t against the system call on tree ROOT/u
static void do_pass (const Op& p) {
    string t = P ("t"), u = P ("u");
    mkdir (t.c_str (), 0755); mkdir (u.c_str (), 0755);
    string a = "/" + p.a, b = "/" + p.b; long e; long r; string k = p.s;
    auto ER = [] (long x) { return x == -1 ? -(long)errno : x; };
    auto T = [&] (const string& x) { return t + x; };
    if (k == "mkdir") { e = ER (mkdir ((u + a).c_str (), p.x)); r = real (false, "mkdir", [&] { return (long)LazyFS::lfs_mkdir (T (a).c_str (), p.x); }); }
    else if (k == "rmdir") { e = ER (rmdir ((u + a).c_str ())); r = real (false, "rmdir", [&] { return (long)LazyFS::lfs_rmdir (T (a).c_str ()); }); }
    else if (k == "chmod") { e = ER (chmod ((u + a).c_str (), p.x)); r = real (false, "chmod", [&] { return (long)LazyFS::lfs_chmod (T (a).c_str (), p.x, NULL); }); }
    else if (k == "chown") { e = ER (lchown ((u + a).c_str (), p.x, p.y)); r = real (false, "chown", [&] { return (long)LazyFS::lfs_chown (T (a).c_str (), p.x, p.y, NULL); }); }
    else if (k == "symlink") { e = ER (symlink (b.c_str (), (u + a).c_str ())); r = real (false, "symlink", [&] { return (long)LazyFS::lfs_symlink (b.c_str (), T (a).c_str ()); }); }
    else if (k == "link") { e = ER (link ((u + a).c_str (), (u + b).c_str ())); r = real (false, "link", [&] { return (long)LazyFS::lfs_link (T (a).c_str (), T (b).c_str ()); }); }
    else if (k == "unlink") { e = ER (unlink ((u + a).c_str ())); r = real (false, "unlink", [&] { return (long)LazyFS::lfs_unlink (T (a).c_str ()); }); }
    else if (k == "rename") { struct stat st; LazyFS::lfs_getattr (T (a).c_str (), &st, NULL); LazyFS::lfs_getattr (T (b).c_str (), &st, NULL); e = ER (rename ((u + a).c_str (), (u + b).c_str ())); r = real (false, "rename", [&] { return (long)LazyFS::lfs_rename (T (a).c_str (), T (b).c_str (), 0); }); }
    else if (k == "renamef") { e = -EINVAL; r = real (false, "rename", [&] { return (long)LazyFS::lfs_rename (T (a).c_str (), T (b).c_str (), 1); }); }
    else if (k == "access") { e = ER (access ((u + a).c_str (), p.x)); r = real (false, "access", [&] { return (long)LazyFS::lfs_access (T (a).c_str (), p.x); }); }
    else if (k == "utimens") { timespec ts[2] = {{p.x, 1}, {p.y, 2}}; e = ER (utimensat (AT_FDCWD, (u + a).c_str (), ts, AT_SYMLINK_NOFOLLOW)); r = real (false, "utimens", [&] { return (long)LazyFS::lfs_utimens (T (a).c_str (), ts, NULL); });
        if (e == 0) { struct stat s1, s2; lstat ((u + a).c_str (), &s1); lstat (T (a).c_str (), &s2); if (s1.st_mtim.tv_sec != s2.st_mtim.tv_sec || s1.st_atim.tv_sec != s2.st_atim.tv_sec || s1.st_mtim.tv_nsec != s2.st_mtim.tv_nsec) fail ("utimens: backing times differ"); struct stat s3; LazyFS::lfs_getattr (T (a).c_str (), &s3, NULL); if (s3.st_mtim.tv_sec != s1.st_mtim.tv_sec || s3.st_mtim.tv_nsec != s1.st_mtim.tv_nsec || s3.st_atim.tv_sec != s1.st_atim.tv_sec) fail ("utimens: reported times differ"); } }
    else if (k == "getattr") { struct stat s1, s2; memset (&s1, 0, sizeof s1); memset (&s2, 0, sizeof s2); e = ER (lstat ((u + a).c_str (), &s1)); r = real (false, "getattr", [&] { return (long)LazyFS::lfs_getattr (T (a).c_str (), &s2, NULL); }); if (e == 0 && (s1.st_mode != s2.st_mode || s1.st_uid != s2.st_uid || s1.st_gid != s2.st_gid || (!S_ISDIR (s1.st_mode) && s1.st_nlink != s2.st_nlink) || (!S_ISDIR (s1.st_mode) && s1.st_size != s2.st_size))) fail ("getattr: attributes differ"); }
    else if (k == "readlink") { char x[300], y[300]; memset (x, 0x11, 300); memset (y, 0x11, 300); long n = p.x; e = readlink ((u + a).c_str (), x, n - 1); if (e == -1) e = -errno; else { x[e] = 0; e = 0; } char* hb = (char*)malloc (n); memset (hb, 0x11, n); r = real (false, "readlink", [&] { return (long)LazyFS::lfs_readlink (T (a).c_str (), hb, n); }); if (e == 0 && strcmp (x, hb)) fail ("readlink: target differs"); free (hb); }
    else if (k == "readdir") {
        // every entry once, with its inode number and kind; a filler that reports full ends the listing
        multiset<string> n1; static multiset<string>* acc; static size_t lim; static bool full, late; multiset<string> n2, n3; DIR* d = opendir ((u + a).c_str ()); e = d ? 0 : -errno; if (d) { while (auto* q = readdir (d)) n1.insert (q->d_name); closedir (d); }
        multiset<string> own; d = opendir (T (a).c_str ()); if (d) { while (auto* q = readdir (d)) own.insert (string (q->d_name) + "/" + to_string (q->d_ino) + "/" + to_string (q->d_type)); closedir (d); }
        acc = &n2; lim = p.y > 0 ? (size_t)p.y : 1000000; full = late = false;
        auto fill = [] (void*, const char* nm, const struct stat* s, off_t, enum fuse_fill_dir_flags) { if (full) late = true; acc->insert (string (nm) + "/" + to_string (s ? s->st_ino : 0) + "/" + to_string (s ? (s->st_mode >> 12) : 0)); if (acc->size () >= lim) { full = true; return 1; } return 0; };
        int fds = count_fds ();
        fuse_file_info fi; memset (&fi, 0, sizeof fi); r = real (false, "readdir", [&] { return (long)LazyFS::lfs_readdir (T (a).c_str (), NULL, fill, 0, &fi, (fuse_readdir_flags)0); });
        if (e == 0 && !full && own != n2) fail ("readdir: entries differ"); if (e == 0 && n1.size () != own.size ()) fail ("readdir: directories differ"); if (e == 0 && late) fail ("readdir: filler called after it reported full"); if (e == 0 && full) for (auto& x : n2) if (!own.count (x)) fail ("readdir: entry that does not exist"); if (count_fds () != fds) fail ("readdir: descriptor left open"); }
    else if (k == "creat") { int f = open ((u + a).c_str (), O_CREAT | O_EXCL | O_RDWR, p.x); e = f < 0 ? -errno : 0; if (f >= 0) close (f); fuse_file_info fi; memset (&fi, 0, sizeof fi); fi.flags = O_CREAT | O_EXCL | O_RDWR; r = real (false, "create", [&] { return (long)LazyFS::lfs_create (T (a).c_str (), p.x, &fi); }); if (r == 0) close (fi.fh); }
    else if (k == "open") { int f = open ((u + a).c_str (), p.x & ~O_TRUNC); e = f < 0 ? -errno : 0; if (f >= 0) close (f); fuse_file_info fi; memset (&fi, 0, sizeof fi); fi.flags = p.x; r = real (false, "open", [&] { return (long)LazyFS::lfs_open (T (a).c_str (), &fi); }); if (r == 0) { int fl = fcntl (fi.fh, F_GETFL); if (fl == -1 || (fl & O_ACCMODE) != (p.x & O_ACCMODE)) fail ("open: descriptor has another access mode"); close (fi.fh); } }
    else if (k == "lseek") { int f = open ((u + a).c_str (), O_RDONLY); if (f < 0) return; e = ER (lseek (f, p.x, p.y)); close (f); int f2 = open (T (a).c_str (), O_RDONLY); fuse_file_info fi; memset (&fi, 0, sizeof fi); fi.fh = f2; r = real (false, "lseek", [&] { return (long)FS->lfs_lseek(T (a).c_str (), p.x, p.y, &fi); }); if (r >= 0 && lseek (f2, 0, SEEK_CUR) != r) fail ("lseek: descriptor position differs"); close (f2); }
    else return;
    if (r != e) fail (k + " returned " + to_string (r) + ", expected " + to_string (e));
    struct stat s1, s2; bool x1 = lstat ((u + a).c_str (), &s1) == 0, x2 = lstat (T (a).c_str (), &s2) == 0;
    if (x1 != x2 || (x1 && (s1.st_mode != s2.st_mode || s1.st_uid != s2.st_uid || s1.st_gid != s2.st_gid))) fail (k + ": backing object differs");
    if (!p.b.empty () && k != "symlink") { x1 = lstat ((u + b).c_str (), &s1) == 0, x2 = lstat (T (b).c_str (), &s2) == 0; if (x1 != x2 || (x1 && s1.st_mode != s2.st_mode)) fail (k + ": backing target differs"); }
}
