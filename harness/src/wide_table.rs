{
els!(v, v8, 2, 3);
p!(v8, 2);
p!(v8, 3);
p!(v8, 4);
p!(v8, 5);
p!(v8, 6);
p!(v8, 7);
els!(v, v8, (1u64 << 8) - 1, 1u64 << 8);
els!(v, v16, 2, 3);
p!(v16, 2);
p!(v16, 3);
p!(v16, 4);
p!(v16, 5);
p!(v16, 6);
p!(v16, 7);
p!(v16, 8);
p!(v16, 9);
p!(v16, 10);
p!(v16, 11);
p!(v16, 12);
p!(v16, 13);
p!(v16, 14);
p!(v16, 15);
els!(v, v16, (1u64 << 16) - 1, 1u64 << 16);
els!(v, v32, 2, 3);
p!(v32, 2);
p!(v32, 3);
p!(v32, 4);
p!(v32, 5);
p!(v32, 6);
p!(v32, 7);
p!(v32, 8);
p!(v32, 9);
p!(v32, 10);
p!(v32, 11);
p!(v32, 12);
p!(v32, 13);
p!(v32, 15);
p!(v32, 16);
p!(v32, 17);
p!(v32, 20);
p!(v32, 21);
p!(v32, 22);
p!(v32, 24);
p!(v32, 25);
p!(v32, 26);
p!(v32, 30);
p!(v32, 31);
els!(v, v32, (1u64 << 32) - 1, 1u64 << 32);
els!(v, vs, 2, 3);
p!(vs, 2);
p!(vs, 3);
p!(vs, 4);
p!(vs, 5);
p!(vs, 6);
p!(vs, 7);
p!(vs, 8);
p!(vs, 9);
p!(vs, 10);
p!(vs, 11);
p!(vs, 12);
p!(vs, 13);
p!(vs, 15);
p!(vs, 16);
p!(vs, 17);
p!(vs, 20);
p!(vs, 21);
p!(vs, 22);
p!(vs, 24);
p!(vs, 25);
p!(vs, 26);
p!(vs, 30);
p!(vs, 31);
els!(v, vs, (1u64 << 32) - 1, 1u64 << 32);
els!(v, v64, 2, 3);
p!(v64, 2);
p!(v64, 3);
p!(v64, 4);
p!(v64, 5);
p!(v64, 6);
p!(v64, 7);
p!(v64, 8);
p!(v64, 9);
p!(v64, 10);
p!(v64, 11);
p!(v64, 12);
p!(v64, 13);
p!(v64, 15);
p!(v64, 16);
p!(v64, 17);
p!(v64, 20);
p!(v64, 21);
p!(v64, 22);
p!(v64, 24);
p!(v64, 25);
p!(v64, 26);
p!(v64, 30);
p!(v64, 31);
p!(v64, 32);
p!(v64, 33);
p!(v64, 34);
p!(v64, 40);
p!(v64, 42);
p!(v64, 43);
p!(v64, 48);
p!(v64, 50);
p!(v64, 60);
p!(v64, 61);
p!(v64, 62);
p!(v64, 63); els!(v, v64, u64::MAX - 1, u64::MAX);
els!(v, v128, 2, 3);
p!(v128, 2);
p!(v128, 3);
p!(v128, 4);
p!(v128, 5);
p!(v128, 6);
p!(v128, 7);
p!(v128, 8);
p!(v128, 9);
p!(v128, 10);
p!(v128, 11);
p!(v128, 12);
p!(v128, 13);
p!(v128, 15);
p!(v128, 16);
p!(v128, 17);
p!(v128, 20);
p!(v128, 21);
p!(v128, 22);
p!(v128, 24);
p!(v128, 25);
p!(v128, 26);
p!(v128, 30);
p!(v128, 31);
p!(v128, 32);
p!(v128, 33);
p!(v128, 34);
p!(v128, 40);
p!(v128, 42);
p!(v128, 43);
p!(v128, 48);
p!(v128, 50);
p!(v128, 60);
p!(v128, 61);
p!(v128, 62);
p!(v128, 63); els!(v, v128, u64::MAX - 1, u64::MAX);
}
