tuples!(T0.0);
tuples!(T0.0, T1.1);
tuples!(T0.0, T1.1, T2.2);
tuples!(T0.0, T1.1, T2.2, T3.3);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22, T23.23);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22, T23.23, T24.24);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22, T23.23, T24.24, T25.25);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22, T23.23, T24.24, T25.25, T26.26);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22, T23.23, T24.24, T25.25, T26.26, T27.27);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22, T23.23, T24.24, T25.25, T26.26, T27.27, T28.28);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22, T23.23, T24.24, T25.25, T26.26, T27.27, T28.28, T29.29);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22, T23.23, T24.24, T25.25, T26.26, T27.27, T28.28, T29.29, T30.30);
tuples!(T0.0, T1.1, T2.2, T3.3, T4.4, T5.5, T6.6, T7.7, T8.8, T9.9, T10.10, T11.11, T12.12, T13.13, T14.14, T15.15, T16.16, T17.17, T18.18, T19.19, T20.20, T21.21, T22.22, T23.23, T24.24, T25.25, T26.26, T27.27, T28.28, T29.29, T30.30, T31.31);
