from sim.stubs import simfutures as futures
