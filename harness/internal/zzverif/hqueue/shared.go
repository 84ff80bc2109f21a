package hqueue

// What the statements of the cache properties say holds for whole requests and passes as well.

func VH_P02_Request() { VH_P01_ServicePull() }
func VH_P02_Queue()   { VH_P13_Pull() }
func VH_P03_Queue()   { VH_P13_Pull() }
func VH_P03_Answer()  { VH_P14_Others() }
func VH_P04_Request() { VH_P01_ServicePull() }
func VH_P04_Pass()    { VH_P28_Timeout() }
func VH_P05_Pass()    { VH_P28_Unlock() }
func VH_P05_Answer()  { VH_P14_Service() }
func VH_P06_Service() { VH_P12_Add() }
func VH_P08_Answer()  { VH_P14_Others() }
func VH_P26_Request() { VH_P01_ServicePull() }
